import collections
import pbt, rdf
from common import *
from c06 import groups_ok
from c08 import COLS, key_of, Desc, check_slice

SUMS = ("SUM", "AVG"); BEST = ("MIN", "MAX")

def agg_text(a):
    f, d, e, alias, sep = a
    inner = "*" if e == "*" else rdf.show_expr(e)
    return "(%s(%s%s%s) AS ?%s)" % (f, "DISTINCT " if d else "", inner, "" if sep is None else " ; SEPARATOR = \"%s\"" % sep, alias)

def aggregate(a, rows):
    """Expected value of one aggregate over a group (list of solutions), as a cell pattern for `cell_ok`."""
    f, d, e, alias, sep = a
    if e == "*":
        n = len({repr(sorted(m.items())) for m in rows}) if d else len(rows)
        return L(str(n), None, XSD + "integer")
    vals = []
    for m in rows:
        try: v = rdf.ev(e, m)
        except rdf.Err: continue
        if v is not None: vals.append(v)
    if d: vals = list(dict.fromkeys(vals))
    if f == "COUNT": return L(str(len(vals)), None, XSD + "integer")
    if f == "SAMPLE": return ("sample", frozenset(vals)) if vals else None
    if f == "GROUP_CONCAT":
        sep = " " if sep is None else sep
        return ("concat", sep, tuple(sorted(sep.join(v[1] for v in vals).split(sep))) if sep else ("".join(sorted("".join(v[1] for v in vals))),))
    if f in SUMS:
        if not all(rdf.isnum(v) for v in vals): raise rdf.Ambig("sum of other values than numbers")
        acc = L("0", None, XSD + "integer")
        for v in vals: acc = rdf.ev(["arith", "+", ["term", acc], ["term", v]], {})
        if f == "AVG" and vals: acc = rdf.ev(["arith", "/", ["term", acc], ["term", L(str(len(vals)), None, XSD + "integer")]], {})
        return acc
    if not vals: return None
    if not (all(rdf.isnum(v) for v in vals) or all(rdf.istime(v) for v in vals)): raise rdf.Ambig("extreme of other values than numbers or dates")
    best = (min if f == "MIN" else max)(key_of(v) for v in vals)
    return ("sample", frozenset(v for v in vals if key_of(v) == best))

def cell_ok(exp, got):
    if exp is None or got is None: return exp is None and got is None
    if exp[0] == "sample": return any(cell_ok(x, got) for x in exp[1])
    if exp[0] == "concat":
        if got[0] != 'l' or got[2] or got[3]: return False
        return tuple(sorted(got[1].split(exp[1]))) == exp[2] if exp[1] else "".join(sorted(got[1])) == exp[2][0]
    if exp == got: return True
    if rdf.isnum(exp) and rdf.isnum(got) and exp[3] == got[3]:
        a, b = float(exp[1]), float(got[1])
        return abs(a - b) <= 2e-6 + 2e-6 * abs(a)
    return False

def show_cell(c):
    if c is None: return "-"
    if c[0] == "sample": return "one of " + "/".join(sorted(map(rdf.show, c[1])))
    if c[0] == "concat": return "some order of %r" % (c[1].join(c[2]),)
    return rdf.show(c)

class C09(QueryCheck):
    prop = "C09"
    title = "Aggregates and GROUP BY compute over exactly the solutions of each group"
    technique = "property-based testing against a reference evaluator of aggregates"
    rule = ("a case builds a database with numeric, string, date and IRI columns (several values per entity, some missing) and asks 12 queries "
            "with one to three aggregates (COUNT, SUM, AVG, MIN, MAX, GROUP_CONCAT, SAMPLE; DISTINCT; of a variable, an expression or *) over "
            "joins, OPTIONAL and UNION, with 0-2 grouping variables, sometimes DISTINCT, ORDER BY, LIMIT and OFFSET. Every group and value must be "
            "the reference's: numbers by type and value (relative error 2e-6), GROUP_CONCAT as a multiset of its parts, SAMPLE and ties of MIN and "
            "MAX as any admissible value. Non-trivial: some group has two or more solutions, or the query has no solution and one group; distinct "
            "by (graph, query text).")
    quick = 1500; thorough = 60000
    def gen(self, r, i, tier):
        g = set(); ents = r.randrange(2, 8)
        for s in range(ents):
            for p in "nsdik":
                if r.random() < .7:
                    for _ in range(r.choice([1, 1, 2, 3])):
                        g.add((U("e%d" % s), U(p), U("e%d" % r.randrange(ents)) if p == "k" else COLS[p](r)))
        if not g: g.add((U("e0"), U("n"), L("1", None, XSD + "integer")))
        g = jl(sorted(g, key=repr))
        return {"graph": g, "qs": [self.gen_q(r, g) for _ in range(12)]}
    def gen_q(self, r, g):
        cols = r.sample("nsdik", r.randrange(1, 4))
        if "n" not in cols and r.random() < .6: cols[0] = "n"
        grp = jl([["t", V("s"), U(cols[0]), V("v" + cols[0])]])
        for c in cols[1:]:
            s = "vk" if "k" in cols[:cols.index(c)] and r.random() < .6 else "s"
            t = jl(["t", V(s), U(c), V("v" + c)])
            grp.append(t if r.random() < .65 else ["opt", [t]])
        x = r.random()
        if x < .1 and len(cols) > 1: grp = [["union", [[grp[0]], jl([["t", V("s"), U(cols[1]), V("v" + cols[1])]])]]]
        elif x < .17: grp = jl([["t", V("s"), V("p"), V("vi")]])
        elif x < .22: grp[0][1] = jl(U("e%d" % r.randrange(9)))
        elif x < .28: grp.append(["filter", ["bound", r.choice(rdf.group_vars(grp))]])
        vs = rdf.group_vars(grp)
        group = r.sample(vs, min(len(vs), r.choice([0, 0, 1, 1, 1, 2])))
        aggs = []
        for k in range(r.choice([1, 1, 2, 3])):
            v = r.choice(vs); kind = v[1:]
            fs = ["COUNT", "COUNT", "SAMPLE"]
            if kind == "n": fs += ["SUM", "AVG", "MIN", "MAX"] * 2
            if kind == "d": fs += ["MIN", "MAX"] * 2
            if kind in "nsi": fs += ["GROUP_CONCAT"]
            f = r.choice(fs)
            e = ["var", v]
            if f == "COUNT" and r.random() < .3: e = "*"
            elif kind == "n" and f in SUMS + BEST and r.random() < .2: e = ["arith", r.choice("+*-"), e, jl(["term", L(str(r.randrange(1, 4)), None, XSD + "integer")])]
            sep = r.choice([None, ",", "|", "", " ; "]) if f == "GROUP_CONCAT" else None
            aggs.append([f, r.random() < .35, e, "g%d" % k, sep])
        if r.random() < .04: aggs[0] = ["COUNT", aggs[0][1], ["var", "zz"], aggs[0][3], None]      # a variable of no pattern
        keep = group if r.random() < .85 else group[:1]
        q = {"g": grp, "group": group, "sel": keep, "aggs": aggs, "distinct": r.random() < .1}
        if r.random() < .3:
            c = [v for v in keep] + [a[3] for a in aggs if a[0] == "COUNT"]
            if c: q["order"] = [[v, r.random() < .5] for v in r.sample(c, min(len(c), r.choice([1, 2])))]
            if r.random() < .08: q["order"] = (q.get("order") or []) + [["zy", r.random() < .5]]
        if r.random() < .2: q["limit"] = r.choice([0, 1, 2, 1000])
        if r.random() < .15: q["offset"] = r.choice([0, 1, 2])
        return q
    def valid_q(self, q):
        vs = set(rdf.group_vars(q["g"]))
        return (valid_group(q["g"]) and groups_ok(q["g"]) and set(q["group"]) <= vs and set(q["sel"]) <= set(q["group"]) and len(q["aggs"]) > 0
                and len({a[3] for a in q["aggs"]}) == len(q["aggs"]) and all(len(a) == 5 and a[3] and a[3] not in vs for a in q["aggs"])
                and all(a[2] == "*" and a[0] == "COUNT" or valid_expr(a[2]) for a in q["aggs"])
                and all(v in q["sel"] or v in [a[3] for a in q["aggs"]] for v, _ in q.get("order") or [] if v != "zy"))
    def sel(self, q): return list(q["sel"]) + [a[3] for a in q["aggs"]]
    def run(self, ctx, case, rep):
        for q in case["qs"]: q["text"] = self.text(q)
        QueryCheck.run(self, ctx, case, rep)
    def text(self, q):
        t = "SELECT %s%s WHERE %s" % ("DISTINCT " if q.get("distinct") else "", " ".join(["?" + v for v in q["sel"]] + [agg_text(a) for a in q["aggs"]]), rdf.show_group(q["g"]))
        if q["group"]: t += " GROUP BY " + " ".join("?" + v for v in q["group"])
        if q.get("order"): t += " ORDER BY " + " ".join(("DESC(?%s)" if d else "ASC(?%s)") % v for v, d in q["order"])
        if q.get("limit") is not None: t += " LIMIT %d" % q["limit"]
        if q.get("offset") is not None: t += " OFFSET %d" % q["offset"]
        return t
    def expected(self, g, q):
        sols = rdf.eval_group(g, q["g"])
        if len(sols) > 5000: raise rdf.TooBig()
        groups = {}
        for m in sols: groups.setdefault(tuple(m.get(v) for v in q["group"]), []).append(m)
        if not q["group"] and not groups: groups[()] = []
        out = []
        for key, rows in groups.items():
            env = dict(zip(q["group"], key))
            out.append((tuple(env[v] for v in q["sel"]) + tuple(aggregate(a, rows) for a in q["aggs"]), len(rows)))
        if q.get("distinct"):
            if any(a[0] not in ("COUNT",) for a in q["aggs"]): raise rdf.Ambig("distinct rows of computed values")
            out = [(k, max(n for x, n in out if x == k)) for k in dict.fromkeys(x[0] for x in out)]
        for v, _ in q.get("order") or []:
            if v == "zy": continue
            kinds = {key_of(x[0][self.sel(q).index(v)])[1] for x in out if key_of(x[0][self.sel(q).index(v)])[0] == 2}
            if len(kinds) > 1: raise rdf.Ambig("order of different kinds of literals")
        return out
    def judge(self, g, q, text, reply, rep):
        full = self.expected(g, q); cols = self.sel(q)
        got = rows_or_violation(reply, text, cols)
        # replace each row by the expected row it matches, then check the slice
        rest = [x[0] for x in full]; of = {}      # of: expected row -> the returned row it stands for (bipartite matching)
        fits = {}
        def place(i, seen):
            if got[i] not in fits: fits[got[i]] = [j for j, e in enumerate(rest) if all(map(cell_ok, e, got[i]))]
            for j in fits[got[i]]:
                if j in seen: continue
                seen.add(j)
                if j not in of or place(of[j], seen): of[j] = i; return True
            return False
        for i, row in enumerate(got):
            if not place(i, set()):
                rest = [e for j, e in enumerate(rest) if j not in of]
                raise Violation("%s\n  unexpected row (%s)\n  expected rows (of %d): %s" % (text, " ".join("-" if c is None else rdf.show(c) for c in row), len(full),
                                "; ".join("(" + " ".join(map(show_cell, e)) + ")" for e in rest[:6])))
        inv = {i: j for j, i in of.items()}; named = [rest[inv[i]] for i in range(len(got))]
        keys = [(e, tuple(Desc(key_of(e[cols.index(v)])) if d else key_of(e[cols.index(v)]) for v, d in q.get("order") or [] if v != "zy")) for e, _ in full]
        check_slice2(q, keys, named, text)
        return full
    def labels(self, g, q, exp):
        return ["%s%s%s" % (a[0], " distinct" if a[1] else "", " *" if a[2] == "*" else "") for a in q["aggs"]] + ["%d group variables" % len(q["group"]), "%d aggregates" % len(q["aggs"])] + (["no solutions"] if exp and exp[0][1] == 0 else [])
    def interesting(self, g, q, exp): return any(n > 1 for _, n in exp) or (len(exp) == 1 and exp[0][1] == 0)

def check_slice2(q, keys, got, text):
    """check_slice over rows of cell patterns (hashable through repr)."""
    r = lambda e: tuple(repr(sorted(map(rdf.show, c[1]))) if c is not None and c[0] == "sample" else repr(c) for c in e)
    try: check_slice(q, [(r(e), k) for e, k in keys], [r(e) for e in got], text)
    except Violation as e: raise Violation(str(e))
CHECK = C09()
