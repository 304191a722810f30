import collections
import pbt, rdf
from common import *
from c06 import groups_ok

X = lambda n: XSD + n
COLS = {  # predicate -> values of one comparable kind (a column may also hold IRIs, and be unbound through OPTIONAL)
    "n": lambda r: r.choice([lambda: L(str(r.randrange(-5, 8)), None, X("integer")), lambda: L("%.1f" % (r.randrange(-8, 16) / 2), None, X("double")),
                             lambda: L("%.1f" % (r.randrange(-8, 16) / 2), None, X("decimal")), lambda: L(str(r.choice([10, 100, 9, 99, 1000])), None, X("integer"))])(),
    "s": lambda r: L(r.choice(["a", "b", "ab", "B", "aa", "Z", "", "10", "9", "a b", "caf\u00e9", "~"])),
    "d": lambda r: L("%d-%02d-%02dT%02d:00:00Z" % (r.choice([1969, 1999, 2000, 2024]), r.randrange(1, 4), r.randrange(1, 4), r.choice([0, 9, 10])), None, X("dateTime")),
    "i": lambda r: U(r.choice(["e%d", "e%d", "E%d"]) % r.choice([0, 1, 2, 10, 9])),
    "m": lambda r: COLS["i"](r) if r.random() < .4 else COLS["s"](r),
}

def key_of(t):
    """Sort key of a term: unbound, then IRIs, then literals; equal keys are ties."""
    if t is None: return (0,)
    if t[0] == 'u': return (1, t[1].encode())
    if rdf.isnum(t): return (2, "n", float(t[1]))
    if rdf.istime(t): return (2, "t", tuple(rdf.timeval(t)))
    if rdf.isstr(t): return (2, "s", t[1].encode())
    raise rdf.Ambig("order of " + rdf.show(t))

class Desc:
    __slots__ = ("k",)
    def __init__(self, k): self.k = k
    def __lt__(self, o): return o.k < self.k
    def __eq__(self, o): return self.k == o.k
    def __hash__(self): return hash(self.k)

def check_slice(q, full, got, text):
    """full: list of (row, key); got must be rows [offset, offset+limit) of some sorted arrangement of full."""
    lo = q.get("offset") or 0
    hi = len(full) if q.get("limit") is None else min(len(full), lo + q["limit"])
    want = max(0, hi - lo)
    if len(got) != want: raise Violation("%s\n  got %d rows, expected %d of the %d solutions" % (text, len(got), want, len(full)))
    full = sorted(full, key=lambda x: x[1])
    pos = 0
    while pos < len(full):
        end = pos
        while end < len(full) and full[end][1] == full[pos][1]: end += 1
        a, b = max(pos, lo), min(end, hi)
        if a < b:
            seg = collections.Counter(got[a - lo:b - lo]); cls = collections.Counter(x[0] for x in full[pos:end])
            bad = seg - cls if b - a < end - pos else (seg - cls) + (cls - seg)
            if bad: raise Violation("%s\n  rows %d..%d of the answer should be %s%s\n  but are %s" % (
                text, a - lo, b - lo - 1, "" if b - a == end - pos else "%d of " % (b - a), fmt_rows(list(cls.elements())), fmt_rows(got[a - lo:b - lo])))
        pos = end

class C08(QueryCheck):
    prop = "C08"
    title = "ORDER BY, DISTINCT, OFFSET and LIMIT return the right slice of the solutions"
    technique = "property-based testing against a reference evaluator and an ordering oracle with ties"
    rule = ("a case builds a database whose predicates hold numbers of several types, strings, dates, IRIs, or IRIs mixed with strings, and asks 14 "
            "queries: one to three joined patterns (or patterns that share only a predicate variable), sometimes with OPTIONAL, UNION or FILTER, ordered by 0-3 variables (ascending or descending, "
            "projected or not), with or without DISTINCT, and with LIMIT and OFFSET values from 0 to beyond the number of solutions. The answer "
            "must be the rows OFFSET..OFFSET+LIMIT of some arrangement of the reference solutions sorted by the keys (unbound, IRIs, literals; "
            "numbers and dates by value, strings by code point; ties in any order). Non-trivial: at least two solutions differ in their sort key, "
            "or the slice leaves solutions out; distinct by (graph, query text).")
    quick = 1500; thorough = 60000
    def gen(self, r, i, tier):
        g = set()
        ents = r.randrange(2, 9)
        for s in range(ents):
            for p in COLS:
                if r.random() < .7:
                    for _ in range(r.choice([1, 1, 1, 2, 3])): g.add((U("e%d" % s), U(p), COLS[p](r)))
        for _ in range(r.randrange(0, 8)): g.add((U("e%d" % r.randrange(ents)), U("k"), U("e%d" % r.randrange(ents))))
        if not g: g.add((U("e0"), U("n"), L("1", None, X("integer"))))
        g = jl(sorted(g, key=repr))
        return {"graph": g, "qs": [self.gen_q(r, g) for _ in range(14)]}
    def gen_q(self, r, g):
        cols = r.sample(list(COLS), r.randrange(1, 4))
        grp = jl([["t", V("s"), U(cols[0]), V("v" + cols[0])]])
        for c in cols[1:]:
            t = jl(["t", V(r.choice("sss") if r.random() < .9 else "k"), U(c), V("v" + c)])
            if ["v", "k"] in t: grp.insert(1, jl(["t", V("s"), U("k"), V("k")]))
            x = r.random()
            grp.append(t if x < .6 else ["opt", [t]])
        x = r.random()
        if x < .08 and len(cols) > 1: grp = [["union", [[grp[0]], [jl(["t", V("s"), U(cols[1]), V("v" + cols[1])])]]]]
        elif x < .13: grp = jl([["t", U("e%d" % r.randrange(4)), U(cols[0]), V("v" + cols[0])]])
        elif x < .2: grp.append(["filter", ["bound", r.choice(rdf.group_vars(grp))]])
        elif x < .25: grp = jl([["t", V("s"), U("n"), V("n")], ["t", V("u"), U("s"), V("s2")]])
        elif x < .33:      # parts that only share a predicate variable
            ends = [V("a"), V("b"), U("e%d" % r.randrange(4))]
            grp = jl([["t", r.choice(ends[::2]), V("y"), V("c")], ["t", r.choice(ends[1:]), V("y"), V("d")]])
            if r.random() < .3: grp.append(jl(["t", V("d"), U("k"), V("f")]))
        vs = rdf.group_vars(grp)
        sel = vs if r.random() < .5 else r.sample(vs, r.randrange(1, len(vs) + 1))
        q = {"g": grp, "sel": sel, "distinct": r.random() < .3}
        if r.random() < .75:
            ov = r.sample(vs, min(len(vs), r.choice([1, 1, 2, 3])))
            q["order"] = [[v, r.random() < .5] for v in ov]
        if r.random() < .08: q["sel"] = list(q["sel"]); q["sel"].insert(r.randrange(len(q["sel"]) + 1), "zz")     # a variable of no pattern
        if q.get("order") and r.random() < .06: q["order"].insert(r.randrange(2), ["zz", r.random() < .5])
        if r.random() < .55: q["limit"] = r.choice([0, 1, 2, 3, 5, 8, 1000])
        if r.random() < .4: q["offset"] = r.choice([0, 1, 2, 3, 7, 1000])
        return q
    def in_domain(self, q):
        vs = set(rdf.group_vars(q["g"])) | {"zz"}
        return q["sel"] and groups_ok(q["g"]) and set(q["sel"]) <= vs and all(v in vs for v, _ in q.get("order") or [])
    def expected(self, g, q):
        sols = rdf.eval_group(g, q["g"])
        if len(sols) > 20000: raise rdf.TooBig()
        full = []
        for m in sols:
            row = tuple(m.get(v) for v in q["sel"])
            full.append((row, tuple(Desc(key_of(m.get(v))) if d else key_of(m.get(v)) for v, d in q.get("order") or [])))
        for k in zip(*[x[1] for x in full]):
            kinds = {(x.k if isinstance(x, Desc) else x)[1] for x in k if (x.k if isinstance(x, Desc) else x)[0] == 2}
            if len(kinds) > 1: raise rdf.Ambig("order of different kinds of literals")
        return full
    def judge(self, g, q, text, reply, rep):
        full = self.expected(g, q)
        if q.get("distinct"):
            keys = {}
            for row, k in full: keys.setdefault(row, set()).add(k)
            if any(len(k) > 1 for k in keys.values()):  # a row with several sort keys may stand at any of them
                got = rows_or_violation(reply, text, self.sel(q))
                lo = q.get("offset") or 0; hi = len(keys) if q.get("limit") is None else min(len(keys), lo + q["limit"])
                if len(got) != max(0, hi - lo) or len(set(got)) != len(got) or not set(got) <= set(keys):
                    raise Violation("%s\n  should be %d different rows of %s\n  but is %s" % (text, max(0, hi - lo), fmt_rows(list(keys)), fmt_rows(got)))
                at = None
                for row in got:
                    k = min((k for k in keys[row] if at is None or not k < at), default=None)
                    if k is None: raise Violation("%s\n  row %s cannot follow the rows before it" % (text, fmt_rows([row])))
                    at = k
                return full
            full = [(row, min(k)) for row, k in keys.items()]
        check_slice(q, full, rows_or_violation(reply, text, self.sel(q)), text)
        return full
    def labels(self, g, q, exp):
        out = ["%d sort keys" % len(q.get("order") or []), "distinct" if q.get("distinct") else "all rows"]
        if q.get("limit") is not None: out.append("limit")
        if q.get("offset") is not None: out.append("offset")
        if any(v not in q["sel"] for v, _ in q.get("order") or []): out.append("key not projected")
        if len({x[1] for x in exp}) < len(exp): out.append("ties")
        if len(q["g"]) == 1: out.append("single pattern")
        return out
    def interesting(self, g, q, exp):
        lo = q.get("offset") or 0; hi = len(exp) if q.get("limit") is None else lo + q["limit"]
        return len({x[1] for x in exp}) > 1 or (len(exp) > 0 and (lo > 0 or hi < len(exp)))
CHECK = C08()
