import pbt, rdf
from common import *

VS = ["a", "b", "c", "d"]
def small_bgp(r, mixed=False):
    k = r.randrange(1, 5); out = []
    if mixed:       # any variable and name in any position
        name = lambda: U(r.choice(["e0", "e1", "e2", "p0", "p1"]))
        while len(out) < k:
            t = jl(["t", V(r.choice(VS)) if r.random() < .8 else name(), V(r.choice(VS)) if r.random() < .4 else name(), V(r.choice(VS)) if r.random() < .8 else name()])
            if t not in out: out.append(t)
        return out
    while len(out) < k:
        s = V(r.choice(VS)) if r.random() < .8 else U("e%d" % r.randrange(7))
        p = U("p%d" % r.randrange(4)) if r.random() < .75 else V(r.choice(["x", "y"]))
        x = r.random()
        o = V(r.choice(VS)) if x < .7 else U("e%d" % r.randrange(7)) if x < .85 else L("v%d" % r.randrange(4))
        t = jl(["t", s, p, o])
        if t not in out: out.append(t)
    return out

def shaped_bgp(r, g):
    """4-7 patterns of a chain, star, cycle, tree or snowflake whose constants come from the graph, seeded by a walk in it."""
    shape = r.choice(["chain", "star", "cycle", "tree", "flake"])
    n = r.randrange(3, 7)
    preds = sorted({t[1][1] for t in g})
    names = ["v%d" % i for i in range(9)]
    edges = []
    if shape == "chain": edges = [(i, i + 1) for i in range(n)]
    elif shape == "star": edges = [(0, i + 1) for i in range(n)]
    elif shape == "cycle": edges = [(i, (i + 1) % n) for i in range(n)]
    elif shape == "tree": edges = [(r.randrange(i), i) for i in range(1, n + 1)]
    else: edges = [(0, 1), (0, 2), (1, 3), (2, 4)] + [(r.randrange(5), r.randrange(5))] * (r.random() < .5) + [(0, 5)] * (r.random() < .4)
    out = []
    leaf = {}
    for a, b in edges:
        for x in (a, b): leaf[x] = leaf.get(x, 0) + 1
    const = {}
    for x in leaf:
        if r.random() < (.25 if leaf[x] == 1 else .06):
            t = r.choice(g); const[x] = t[2] if leaf[x] == 1 and r.random() < .5 else t[0]
    for a, b in edges:
        if a == b: continue
        p = U(r.choice(preds)) if r.random() < .92 else V("y%d" % len(out))
        if r.random() < .3: a, b = b, a
        s, o = const.get(a, V(names[a])), const.get(b, V(names[b]))
        if s[0] == 'l': s, o = o, s
        if s[0] == 'l': continue
        t = jl(["t", s, p, o])
        if t not in out: out.append(t)
    return out

class C05(QueryCheck):
    prop = "C05"
    title = "Basic graph patterns return exactly the solutions the triples entail"
    technique = "property-based testing against a reference evaluator"
    rule = ("a case builds a database (1-25 triples over few names, or 300-900 triples over 120-300 entities with hubs) and asks 20 or 6 "
            "SELECT queries whose pattern is a random BGP or a chain/star/cycle/tree/snowflake; constants and variables in any position (in one case of six also the same variable as node and predicate), "
            "projection and DISTINCT random. Every answer is compared with the reference evaluator as a multiset of rows. Non-trivial: at "
            "least two patterns and at least one answer; distinct by (graph, query text).")
    quick = 1500; thorough = 60000
    def gen(self, r, i, tier):
        if i % 6 == 5:
            g = mid_graph(r)
            qs = [shaped_bgp(r, g) for _ in range(6)]
        else:
            mixed = i % 6 == 4
            g = graph(r, r.randrange(1, 25), mixed=mixed)
            qs = [self.small(r, g, mixed) for _ in range(20)]
        out = []
        for b in qs:
            while not self.pat_ok(b): b = self.small(r, g, i % 6 == 4)
            vs = rdf.group_vars(b)
            sel = vs if r.random() < .6 else r.sample(vs, r.randrange(1, len(vs) + 1))
            if r.random() < .03: sel = sel + ["zz"]     # a variable of no pattern
            out.append({"g": b, "sel": sel, "distinct": r.random() < .3})
        return {"graph": g, "qs": out}
    def small(self, r, g, mixed):
        return small_bgp(r, mixed) if r.random() < .4 else seeded_bgp(r, g, cp=.5 if mixed else .8)
    def pat_ok(self, b):
        f = bgp_class(b)
        return bool(rdf.group_vars(b)) and not f & {"self-join variable"}
    def in_domain(self, q):
        return self.pat_ok(q["g"]) and q.get("sel") and set(q["sel"]) <= set(rdf.group_vars(q["g"])) | {"zz"} and len(set(q["sel"])) == len(q["sel"])
    def labels(self, g, q, exp):
        return sorted(bgp_class(q["g"])) + ["%d patterns" % len(q["g"]), "mid graph" if len(g) > 100 else "small graph"]
    def interesting(self, g, q, exp): return len(q["g"]) >= 2 and len(exp) > 0
CHECK = C05()
