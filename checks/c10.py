import pbt, rdf
from common import *
from c06 import C06, groups_ok, group_features, walk

class C10(C06):
    prop = "C10"
    title = "ASK and subqueries agree with the solutions of the pattern they hold"
    technique = "property-based testing against a reference evaluator of the SPARQL algebra"
    rule = ("a case builds a database of 3-19 triples and asks 12 queries: ASK over the patterns of C06 (some unmatchable), and SELECT whose group "
            "holds one or two subqueries (projection, DISTINCT, COUNT with GROUP BY, ORDER BY with LIMIT and OFFSET where the slice is determined) "
            "before, after or inside its other parts, with variables shared, hidden by the inner projection under the same name as an outer "
            "one, or renamed. ASK must be true exactly when the reference has a solution; SELECT is compared as a multiset. Non-trivial: a "
            "subquery with an answer, or an ASK over an operator; distinct by (graph, query text).")
    quick = 1500; thorough = 60000
    def gen(self, r, i, tier):
        self.plain = True
        obj = lambda: U("e%d" % r.randrange(5)) if r.random() < .7 else L("v%d" % r.randrange(4))
        g = graph(r, r.randrange(3, 20), ents=5, obj=obj)
        return {"graph": g, "qs": [self.gen_ask(r, g) if r.random() < .35 else self.gen_outer(r, g) for _ in range(12)]}
    def gen_ask(self, r, g):
        while True:
            grp = self.gen_group(r, g, 0) if r.random() < .6 else seeded_bgp(r, g, cp=.9, names=("a", "b", "c", "d") if r.random() < .85 else ())
            if r.random() < .3:
                for el in grp:
                    if el[0] == "t" and r.random() < .5: el[2] = jl(r.choice(g)[1])
            q = {"g": grp, "ask": True}
            if self.valid_q(q): return q
    def gen_sub(self, r, g, depth=0):
        grp = self.gen_group(r, g, 1) if r.random() < .3 else seeded_bgp(r, g, r.randrange(1, 4), cp=.95)
        vs = [v for v in rdf.group_vars(grp)]
        if not vs: return None
        if depth == 0 and r.random() < .1:
            s = self.gen_sub(r, g, 1)
            if s: grp = grp + [["sub", s]] if r.random() < .5 else [["sub", s]] + grp
        q = {"g": grp, "sel": r.sample(vs, r.randrange(1, len(vs) + 1))}
        x = r.random()
        if x < .2:
            q["group"] = r.sample(vs, r.choice([0, 1, 1])) if len(vs) > 0 else []
            q["sel"] = list(q["group"])
            q["aggs"] = [["COUNT", r.random() < .3, r.choice(vs + ["*"]), "n%d" % r.randrange(2)]]
        elif x < .45: q["distinct"] = True
        if r.random() < .2:
            ov = list(q["sel"]); r.shuffle(ov)
            q["order"] = [[v, r.random() < .5] for v in ov]
            if r.random() < .8 and ov:
                q["limit"] = r.choice([1, 2, 3])
                if r.random() < .4: q["offset"] = r.choice([1, 2])
        return q
    def gen_outer(self, r, g):
        while True:
            s = self.gen_sub(r, g)
            if not s: continue
            out = [["sub", s]]
            k = r.random()
            if k < .75:
                b = seeded_bgp(r, g, r.randrange(1, 4), cp=.95)
                out = b + out if r.random() < .5 else out + b
            if r.random() < .15:
                s2 = self.gen_sub(r, g)
                if s2: out.append(["sub", s2])
            if r.random() < .2: out.append(["opt", seeded_bgp(r, g, r.randrange(1, 3))])
            if r.random() < .1: out = [["union", [out, seeded_bgp(r, g, 1)]]]
            elif r.random() < .08: out = seeded_bgp(r, g, r.randrange(1, 3)) + [["opt", out]]
            elif r.random() < .08: out = seeded_bgp(r, g, r.randrange(1, 3)) + [["minus", out]]
            vs = rdf.group_vars(out)
            if not vs: continue
            q = {"g": out, "sel": vs if r.random() < .6 else r.sample(vs, r.randrange(1, len(vs) + 1)), "distinct": r.random() < .2}
            if self.valid_q(q): return q
    def in_domain(self, q):
        def subs(g):
            for el in g:
                if el[0] == "sub": yield el[1]["g"]; yield from subs(el[1]["g"])
                elif el[0] in ("opt", "minus", "group"): yield from subs(el[1])
                elif el[0] == "union":
                    for x in el[1]: yield from subs(x)
        if q.get("ask"): return groups_ok(q["g"])
        return groups_ok(q["g"]) and all(groups_ok(s) for s in subs(q["g"])) and q.get("sel") and set(q["sel"]) <= set(rdf.group_vars(q["g"]))
    def expected(self, g, q):
        if q.get("ask"): return [("true" if rdf.eval_group(g, q["g"]) else "false",)]
        return QueryCheck.expected(self, g, q)
    def judge(self, g, q, text, reply, rep):
        if not q.get("ask"): return QueryCheck.judge(self, g, q, text, reply, rep)
        exp = self.expected(g, q)
        hv, rows = reply_ask(reply, text)
        if rows != exp[0][0]: raise Violation("%s\n  answered %s, expected %s" % (text, rows, exp[0][0]))
        return exp
    def labels(self, g, q, exp):
        if q.get("ask"): return ["ask " + exp[0][0]] + ["ask over " + f for f in sorted(group_features(q["g"]))]
        out = ["%d subqueries" % sum(1 for el in walk(q["g"]) if el[0] == "sub")]
        for el in walk(q["g"]):
            if el[0] == "sub":
                out += ["sub " + k for k in ("distinct", "aggs", "order", "limit", "offset") if el[1].get(k)]
                hidden = set(rdf.group_vars(el[1]["g"])) - set(rdf.sub_vars(el[1]))
                if hidden & set(rdf.group_vars([x for x in q["g"] if x[0] != "sub"])): out.append("sub hides an outer name")
        return out
    def interesting(self, g, q, exp):
        return bool(group_features(q["g"])) if q.get("ask") else len(exp) > 0

def reply_ask(reply, text):
    import json
    if reply.get("exc") or reply["ret"] != OK: raise Violation("query failed (ret %s, %s): %s" % (reply["ret"], reply.get("exc", "no exception"), text))
    try:
        d = json.loads(reply["body"]); b = d["results"]["bindings"]
        assert len(b) == 1 and len(d["head"]["vars"]) == 1
        return d["head"]["vars"], b[0][d["head"]["vars"][0]]["value"]
    except (ValueError, KeyError, TypeError, AssertionError): raise Violation("ASK result is not one boolean: %s\n%s" % (text, reply["body"][:300]))
CHECK = C10()
