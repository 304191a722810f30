import pbt, rdf
from common import *

X = lambda n: XSD + n
NUMS = (lambda r: L(str(r.randrange(-9, 21)), None, X("integer")), lambda r: L("%.2f" % (r.randrange(-20, 60) / 4), None, X("decimal")),
        lambda r: L("%.1f" % (r.randrange(-10, 40) / 2), None, X("double")), lambda r: L("%.1f" % (r.randrange(0, 20) / 2), None, X("float")))
WORDS = ["a", "b", "ab", "B", "aB c", "", "zz", "a@b", "x.y", "10", "9", "caf\u00e9", "A", "a-b", "^^"]
def number(r): return r.choice(NUMS[:1] * 3 + NUMS[1:])(r)
def string(r): return L(r.choice(WORDS))
def tagged(r): return L(r.choice(WORDS), r.choice(["en", "en-GB", "fr", "EN"]))
def when(r):
    return L("%d-%02d-%02dT%02d:%02d:%02dZ" % (r.choice([1969, 1999, 2000, 2024]), r.randrange(1, 4), r.randrange(1, 4), r.choice([0, 7, 23]), r.choice([0, 30]), r.choice([0, 59])), None, X("dateTime"))
def date(r): return L("%d-%02d-%02d" % (r.choice([1999, 2000]), r.randrange(1, 4), r.randrange(1, 4)), None, X("date"))
def other(r):
    return r.choice([lambda: L(r.choice(["true", "false"]), None, X("boolean")), lambda: L(r.choice(["a", "b"]), None, "http://t/d"),
                     lambda: L(str(r.choice([5, 2 ** 31, -2 ** 40, 7])), None, X(r.choice(["long", "integer"]))), lambda: date(r), lambda: date(r)])()
def iri(r): return U("e%d" % r.randrange(4))
KINDS = {"n": number, "s": string, "g": tagged, "t": when, "o": other, "i": iri}

class C07(QueryCheck):
    prop = "C07"
    title = "FILTER and BIND expressions evaluate as SPARQL defines, errors included"
    technique = "property-based testing against a reference evaluator of SPARQL expressions"
    rule = ("a case builds a database whose objects are numbers of four types, plain and tagged strings, dates, booleans, IRIs and other typed "
            "literals (some variables unbound through OPTIONAL) and asks 16 queries with one random expression, up to three levels deep, in a "
            "FILTER or a BIND: comparisons, logic, arithmetic, IN, and every function gStore documents. The answers, and the bound values "
            "(numbers by value and type), must equal those of the reference evaluator; expressions whose outcome the specification leaves open "
            "on some row are left out and counted. Non-trivial: the expression distinguishes rows (a FILTER keeps some and drops some, a BIND "
            "gives two different outcomes); distinct by (graph, query text).")
    quick = 1500; thorough = 60000
    def gen(self, r, i, tier):
        g = []
        for s in range(r.randrange(4, 9)):
            subj = U("e%d" % s)
            for p in ("p0", "p1", "p2"):
                if r.random() < .75:
                    for _ in range(r.choice([1, 1, 2])): g.append((subj, U(p), KINDS[r.choice("nnnssgtoi")](r)))
        if not g: g = [(U("e0"), U("p0"), L("a"))]
        g = jl(sorted(set(g), key=repr))
        G, qs = rdf.Graph(g), []
        for _ in range(16):
            for _ in range(5):      # prefer an expression that the specification decides on every row
                q = self.gen_q(r, g)
                try: rdf.eval_group(G, q["g"]); break
                except rdf.Ambig: pass
            qs.append(q)
        return {"graph": g, "qs": qs}
    def gen_q(self, r, g):
        self.g = g
        pat = jl([["t", V("s"), U("p0"), V("a")]])
        x = r.random()
        if x < .4: pat += jl([["t", V("s"), U("p1"), V("b")]])
        elif x < .85: pat += jl([["opt", [["t", V("s"), U("p1"), V("b")]]]])
        vs = ["a", "b"] if x < .85 else ["a"]
        if r.random() < .15: pat = jl([["t", V("s"), V("q"), V("a")]]); vs = ["a", "q"]
        self.vs = vs
        if r.random() < .7: pat.append(["filter", self.b(r, 3)]); out = ["s"] + vs
        else: pat.append(["bind", self.any(r, 2) if r.random() < .8 else self.n(r, 3), "z"]); out = ["s"] + vs + ["z"]
        q = {"g": pat, "sel": out, "distinct": False}
        if pat[-1][0] == "bind" and self.selectable(pat[-1][1]) and r.random() < .5: q["proj"] = True     # the expression stands in the SELECT clause
        return q
    def selectable(self, e):     # SELECT takes operators, and CONCAT as the whole expression
        plain = lambda x: x[0] in ("var", "term") or x[0] in ("arith", "cmp", "and", "or", "neg", "not") and all(plain(y) for y in x[1:] if isinstance(y, list))
        return e[0] not in ("var", "term") and plain(e) or e[0] == "call" and e[1] == "CONCAT"
    def run(self, ctx, case, rep):
        for q in case["qs"]:
            q.pop("text", None)
            if q.get("proj"): q["text"] = "SELECT %s (%s AS ?z) WHERE %s" % (" ".join("?" + v for v in q["sel"][:-1]), rdf.show_expr(q["g"][-1][1]), rdf.show_group(q["g"][:-1]))
        QueryCheck.run(self, ctx, case, rep)
    # expressions by the type they are meant to have; variables may hold anything, so errors arise too
    def v(self, r): return ["var", r.choice(self.vs)]
    def const(self, r, kind): 
        if r.random() < .5: # a value that occurs
            c = [t[2] for t in self.g if kind_of(t[2]) == kind]
            if c: return ["term", jl(r.choice(c))]
        return ["term", jl(KINDS[kind](r))]
    def any(self, r, d):
        return r.choice([self.n, self.n, self.s, self.s, self.b, self.iri])(r, d)
    def iri(self, r, d):
        x = r.random()
        if x < .4: return ["call", "DATATYPE", self.v(r) if r.random() < .7 or d < 1 else self.any(r, d - 1)]
        return self.v(r) if x < .8 else ["term", jl(iri(r))]
    def n(self, r, d):
        x = r.random()
        if d <= 0 or x < .35: return self.v(r) if r.random() < .6 else self.const(r, "n")
        if x < .75: return ["arith", r.choice("++--**/"), self.n(r, d - 1), self.n(r, d - 1)]
        if x < .82: return ["neg", self.n(r, d - 1)]
        if x < .9: return ["call", "ABS", self.n(r, d - 1)]
        if x < .96: return ["call", r.choice(["YEAR", "MONTH", "DAY", "HOURS", "MINUTES"]), self.v(r)]
        return ["call", "IF", self.b(r, d - 1), self.n(r, d - 1), self.n(r, d - 1)]
    def s(self, r, d):
        x = r.random()
        if d <= 0 or x < .3: return self.v(r) if r.random() < .6 else self.const(r, "s")
        if x < .5: return ["call", "STR", self.any(r, d - 1)]
        if x < .65: return ["call", "LANG", self.v(r)]
        if x < .85: return ["call", r.choice(["UCASE", "LCASE"]), self.s(r, d - 1)]
        if x < .95: return ["call", "CONCAT"] + [self.s(r, d - 1) for _ in range(r.randrange(2, 4))]
        return ["call", "IF", self.b(r, d - 1), self.s(r, d - 1), self.s(r, d - 1)]
    def b(self, r, d):
        x = r.random()
        if d > 0:
            if x < .1: return ["and"] + [self.b(r, d - 1) for _ in range(r.choice([2, 2, 3]))]
            if x < .2: return ["or"] + [self.b(r, d - 1) for _ in range(r.choice([2, 2, 3]))]
            if x < .28: return ["not", self.b(r, d - 1)]
        x = r.random()
        op = r.choice(["=", "!=", "<", ">", "<=", ">="]); eq = r.choice(["=", "!="])
        if x < .25: return ["cmp", op, self.n(r, d - 1), self.n(r, d - 1)]
        if x < .37: return ["cmp", op, self.s(r, d - 1), self.s(r, d - 1)]
        if x < .42: return ["cmp", op, self.v(r), self.const(r, "t")]
        if x < .49: return ["cmp", eq, self.iri(r, d - 1), r.choice([self.const(r, "i"), self.const(r, "i"), ["term", jl(U(X("integer")))], ["term", jl(U(X("string")))], self.iri(r, 0)])]
        if x < .53: return ["cmp", eq, self.v(r), self.const(r, "g")]
        if x < .6: return ["call", r.choice(["CONTAINS", "STRSTARTS"]), self.s(r, d - 1), r.choice([["term", jl(L(r.choice(["a", "b", "", "ab", "@"])))], self.s(r, 0), self.const(r, "g")])]
        if x < .67: return ["call", "REGEX", self.s(r, d - 1), ["term", jl(L(r.choice(["a", "^a", "b$", "a.", "[ab]+", "^$", "A|b", "x[.]y", "^.b"])))]] + ([["term", jl(L("i"))]] if r.random() < .4 else [])
        if x < .75: return ["call", r.choice(["isIRI", "isURI", "isLiteral", "isNumeric"]), self.any(r, d - 1)]
        if x < .8: return ["bound", r.choice(self.vs)]
        if x < .85: return ["call", "LANGMATCHES", ["call", "LANG", self.v(r)], ["term", jl(L(r.choice(["en", "EN", "*", "en-gb", "fr", "e"])))]]
        if x < .95:
            k = r.choice("nnsit")
            return [r.choice(["in", "notin"]), self.v(r), [self.const(r, k) if r.random() < .85 else self.v(r) for _ in range(r.randrange(1, 4))]]
        if x < .97: return ["call", "IF", self.b(r, d - 1), self.b(r, d - 1), self.b(r, d - 1)] if d > 0 else self.v(r)
        return self.any(r, d - 1)
    def in_domain(self, q):
        if q.get("proj") and not (q["g"][-1][0] == "bind" and self.selectable(q["g"][-1][1]) and q["sel"][-1] == "z" and len(q["sel"]) > 1): return False
        try: return all(arity_ok(x[1]) for x in q["g"] if x[0] in ("filter", "bind")) and [x for x in q["g"] if x[0] in ("filter", "bind")] and [x[0] for x in q["g"]].index("t") == 0
        except ValueError: return False
    def judge(self, g, q, text, reply, rep):
        exp = self.expected(g, q)
        got = rows_or_violation(reply, text, self.sel(q))
        if q["sel"][-1] == "z":
            exp = [x[:-1] + (canon(x[-1]),) for x in exp]; got = [x[:-1] + (canon(x[-1]),) for x in got]
        compare(got, exp, text)
        return exp
    def labels(self, g, q, exp):
        out = set()
        def w(e):
            if isinstance(e, list) and e:
                if e[0] == "call": out.add(e[1])
                elif e[0] == "arith" or e[0] == "cmp": out.add(e[0] + " " + e[1])
                elif e[0] in ("and", "or", "not", "neg", "in", "notin", "bound"): out.add(e[0])
                for x in e: w(x)
        el = q["g"][-1]; w(el[1])
        return sorted(out) + ["SELECT expression" if q.get("proj") else el[0]]
    def interesting(self, g, q, exp):
        if q["sel"][-1] == "z": return len({x[-1] for x in exp}) > 1
        return 0 < len(exp) < len(rdf.eval_group(g, [x for x in q["g"] if x[0] != "filter"]))

ARITY = {"CONTAINS": (2, 2), "STRSTARTS": (2, 2), "LANGMATCHES": (2, 2), "REGEX": (2, 3), "IF": (3, 3), "CONCAT": (1, 9)}
def arity_ok(e):
    if e[0] == "call":
        a, b = ARITY.get(e[1], (1, 1))
        if not a <= len(e) - 2 <= b: return False
    return all(arity_ok(x) for x in (e[2] if e[0] in ("in", "notin") else e[1:]) if isinstance(x, list) and e[0] != "term")

def kind_of(t):
    if t[0] == "u": return "i"
    if t[2]: return "g"
    if t[3] is None: return "s"
    if rdf.isnum(tuple(t)) and t[3] != X("long"): return "n"
    return "t" if t[3] == X("dateTime") else "o"

def canon(t):
    """Computed numbers are compared by type and value, not by their spelling."""
    if t is not None and rdf.isnum(t): return ('n', t[3], round(float(t[1]), 5))
    return t
CHECK = C07()
