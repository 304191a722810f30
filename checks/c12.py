import collections, json
import pbt, rdf
from common import *

FN = {  # function: (number of nodes, directed flag, k, extra count)
    "cycleBoolean": (2, 1, 0), "cyclePath": (2, 1, 0), "shortestPath": (2, 1, 0), "shortestPathLen": (2, 1, 0),
    "kHopReachable": (2, 1, 1), "kHopReachablePath": (2, 1, 1), "kHopEnumerate": (2, 1, 1), "SSSP": (1, 1, 0), "SSSPLen": (1, 1, 0),
    "kHopCount": (1, 1, 1), "kHopNeighbor": (1, 1, 1), "bfsCount": (1, 1, 0), "shortestPathCount": (2, 1, 0),
    "closenessCentrality": (1, 1, 0), "WCC": (0, 0, 0), "triangleCounting": (0, 1, 0), "clusterCoeff": (1, 1, 0), "clusterCoeffAll": (0, 1, 0), "labelProp": (0, 1, 1)}
LIM = 60

class Net:
    """The graph a path function works on: entity-to-entity triples with an allowed predicate."""
    def __init__(self, triples, preds, neg, directed):
        allp = {t[1][1] for t in triples}
        ok = set(preds) if preds else allp - set(neg)
        self.E = {(t[0][1], t[1][1], t[2][1]) for t in triples if t[2][0] == 'u' and t[1][1] in ok}
        self.directed = directed
        self.out = collections.defaultdict(list)
        for s, p, o in sorted(self.E):
            self.out[s].append((o, (s, p, o)))
            if not directed: self.out[o].append((s, (s, p, o)))
        self.nodes = {x for s, p, o in self.E for x in (s, o)}
    def dist(self, u):
        d = {u: 0}; q = [u]
        for x in q:
            for y, _ in self.out[x]:
                if y not in d: d[y] = d[x] + 1; q.append(y)
        return d
    def steps(self, u):
        """Neighbours over distinct edges, self-loops once."""
        return self.out[u]
    def shortest_count(self, u, v):
        d = self.dist(u)
        if v not in d: return 0
        n = collections.Counter({u: 1})
        for x in sorted(d, key=d.get):
            for y, _ in self.out[x]:
                if d[y] == d[x] + 1: n[y] += n[x]
        return n[v]
    def simple_paths(self, u, v, k):
        """All node-simple paths of 1..k edges, as tuples of edges; None when there are too many."""
        res = []
        def go(x, seen, path):
            if len(res) > LIM: return
            for y, e in self.out[x]:
                if y in seen: continue
                if y == v: res.append(tuple(path + [e])); continue
                if len(path) + 1 < k: go(y, seen | {y}, path + [e])
        if k >= 1: go(u, {u}, [])
        return None if len(res) > LIM else res
    def parallel(self):
        return len({(s, o) for s, p, o in self.E if s != o}) < len([1 for s, p, o in self.E if s != o])
    def around(self):
        nb = collections.defaultdict(set)
        for s, p, o in self.E:
            if s != o: nb[s].add(o); nb[o].add(s)
        return nb
    def cyclic(self, u=None):
        """Directed triangles (through u) of the simple digraph."""
        e = {(s, o) for s, p, o in self.E if s != o}
        n = sum((b, c) in e and (c, a) in e for a, b in e for c in self.nodes if c not in (a, b) and (u is None or a == u))
        return n // 3 if u is None else n
    def closed(self, u):
        nb = self.around(); x = sorted(nb[u])
        return sum(b in nb[a] for i, a in enumerate(x) for b in x[i + 1:])
    def wcc(self):
        comp = {}
        adj = collections.defaultdict(set)
        for s, _, o in self.E: adj[s].add(o); adj[o].add(s)
        out = set()
        for x in self.nodes:
            if x in comp: continue
            q = [x]; comp[x] = x
            for y in q:
                for z in adj[y]:
                    if z not in comp: comp[z] = x; q.append(z)
            out.add(frozenset(q))
        return out

class C12(pbt.Check):
    prop = "C12"
    title = "Path functions give the answers of the graph they search"
    technique = "property-based testing against reference graph algorithms"
    rule = ("a case builds a graph of 3-40 nodes, sometimes changes it by an update, and asks 14 path-function queries; non-trivial: a query whose "
            "nodes are distinct and connected, or with several pairs; distinct by (graph, query text).")
    quick = 2500; thorough = 60000
    def gen(self, r, i, tier):
        big = r.random() < .25
        n = r.randrange(12, 41) if big else r.randrange(3, 9)
        m = int(n * r.choice([.8, 1.1, 1.4, 2])) + 1
        preds = r.randrange(1, 4)
        g = set()
        for _ in range(m):
            a, b = r.randrange(n), r.randrange(n)
            if big and r.random() < .6: b = (a + r.choice([1, 1, 2])) % n
            o = U("e%d" % b) if r.random() < .93 else L("v%d" % (b % 3))
            g.add((U("e%d" % a), U("p%d" % r.randrange(preds)), o))
        g = jl(sorted(g, key=repr))
        cs = {"graph": g, "qs": [], "csr": r.random() < .3, "upd": None}
        if r.random() < (.2 if cs["csr"] else .5):
            dele = r.sample(g, r.randrange(0, max(1, len(g) // 3)))
            ins = []
            for _ in range(r.randrange(0, 6)):
                t = jl((U("e%d" % r.randrange(n + 1)), U("p%d" % r.randrange(preds + 1)), U("e%d" % r.randrange(n + 1))))
                if t not in ins and t not in dele: ins.append(t)
            if dele or ins: cs["upd"] = [dele, ins]
        if r.random() < .3:         # entities and predicates that are there first and removed again: their IDs are freed
            k = r.randrange(1, 12)
            cs["gone"] = [jl((U("g%d" % r.randrange(k)), U(r.choice(["r%d" % r.randrange(3), "p0"])), U(r.choice(["g%d" % r.randrange(k), "e%d" % r.randrange(n)])))) for _ in range(k)]
            cs["gone"] = [t for j, t in enumerate(cs["gone"]) if t not in cs["gone"][:j]]
            cs["reopen"] = r.random() < .5
        for _ in range(14):
            cs["qs"].append(self.gen_q(r, n, preds))
            if big and cs["qs"][-1]["f"] == "kHopEnumerate": cs["qs"][-1]["k"] %= 5
        return cs
    def gen_q(self, r, n, preds):
        fn = r.choice(list(self.FNS))
        nn, dr, kk = FN[fn]
        q = {"f": fn, "preds": [], "neg": [], "dir": r.random() < .6, "k": r.choice([-1, 0, 1, 2, 2, 3, 3, 4, 6, 9]) if kk else None, "args": [], "g": None}
        if fn in ("kHopCount", "kHopNeighbor"): q["k"] = r.choice([1, 1, 2, 2, 3, 4])
        if fn == "kHopNeighbor" and r.random() < .3: q["ret"] = r.randrange(1, 5)
        if fn == "labelProp": q["k"] = r.randrange(1, 12)
        x = r.random()
        if x < .45: q["preds"] = r.sample(["p%d" % i for i in range(preds + 1)], r.randrange(1, preds + 1))
        elif x < .55: q["neg"] = ["p%d" % r.randrange(preds + 1)]
        q["args"] = ["e%d" % r.randrange(n) for _ in range(nn)]
        if nn and r.random() < .35:
            if r.random() < .6: q["args"][r.randrange(nn)] = "?x"
            elif nn == 2: q["args"] = r.choice([["?x", "?y"], ["?x", "?x"], ["?y", "?x"]])
            else: q["args"] = ["?x"]
            q["g"] = jl([["t", V("x"), U("p%d" % r.randrange(preds)) if r.random() < .8 else V("w"), V("y") if r.random() < .7 else U("e%d" % r.randrange(n))]])
            if r.random() < .2: q["g"] = jl([["t", V("z"), U("p0"), V("x")]])
            if len({a for a in q["args"] if a[0] == "?"} - {"?" + v for v in rdf.group_vars(q["g"])}): q["args"] = [a if a[0] != "?" else "?x" for a in q["args"]]
            if r.random() < .3:
                vs = [v for v in rdf.group_vars(q["g"])]
                q["group"] = r.choice(vs)
        return q
    FNS = list(FN)
    # ------------------------------------------------------------ texts
    def text(self, q):
        a = ["<%s>" % x if x[0] != "?" else x for x in q["args"]]
        nn, dr, kk = FN[q["f"]]
        if dr: a.append("true" if q["dir"] else "false")
        if kk and q["f"] != "labelProp": a.append(str(q["k"]))
        a.append("{" + ",".join(["<%s>" % p for p in q["preds"]] + ["!<%s>" % p for p in q["neg"]]) + "}")
        if q["f"] == "labelProp": a.append("maxIter=%d" % q["k"])
        if q.get("ret") is not None: a.append(str(q["ret"]))
        f = q["f"].replace("All", "")
        sel = "(%s(%s) AS ?res)" % (f, ", ".join(a))
        if q.get("group"): sel = "?%s %s" % (q["group"], sel)
        return "SELECT %s WHERE %s%s" % (sel, rdf.show_group(q["g"]) if q["g"] else "{}", " GROUP BY ?" + q["group"] if q.get("group") else "")
    def valid(self, case):
        if not (valid_graph(case["graph"]) and case["qs"] and all(x[0] == 'u' and x[1][0] in "ep" for t in case["graph"] for x in t if x[0] == 'u')): return False
        if case.get("gone") and not (valid_graph(case["gone"]) and all(t[0][1][0] == "g" for t in case["gone"])): return False
        if case["upd"] and not all(valid_graph(x) for x in case["upd"]): return False
        if case["upd"] and (not any(case["upd"]) or any(t in case["upd"][0] for t in case["upd"][1])): return False
        big = len({x[1] for t in case["graph"] for x in t}) > 12     # enumerating all paths takes time exponential in their length
        return all(self.valid_q(q) and not (big and q["f"] == "kHopEnumerate" and not 0 <= q["k"] <= 4) for q in case["qs"])
    def valid_q(self, q):
        if q["f"] not in FN: return False
        nn, dr, kk = FN[q["f"]]
        if len(q["args"]) != nn or any(a in ("", "?") for a in q["args"]): return False
        if kk and (not isinstance(q["k"], int) or q["k"] < 1 and q["f"] in ("kHopCount", "kHopNeighbor", "labelProp")): return False
        if any(p == "" for p in q["preds"] + q["neg"]) or (q["preds"] and q["neg"]): return False
        va = {a[1:] for a in q["args"] if a[0] == "?"}
        if q["g"]: return valid_group(q["g"]) and va and va <= set(rdf.group_vars(q["g"])) and (not q.get("group") or q["group"] in rdf.group_vars(q["g"]))
        return not va and not q.get("group")
    # ------------------------------------------------------------ the check
    def run(self, ctx, case, rep):
        D = ctx.driver()
        gone = case.get("gone") or []
        name = build_db(ctx, gone + case["graph"], case["csr"] and not gone)
        g = [tuple(map(tuple, t)) for t in case["graph"]]
        if gone:
            x = D.cmd("q", name, "DELETE DATA { %s }" % " ".join("%s %s %s ." % tuple(map(rdf.show, t)) for t in gone), "1")["r"]
            if x.get("exc") or x["ret"] != len(gone): raise Violation("removing %d triples: %s" % (len(gone), x))
            rep.label("entities removed")
            if case.get("reopen") or case["csr"]:
                close_db(ctx, name, False); load_db(ctx, name, case["csr"])
        if case["upd"]:
            for op, ts in zip(("DELETE DATA", "INSERT DATA"), case["upd"]):
                if not ts: continue
                x = D.cmd("q", name, "%s { %s }" % (op, " ".join("%s %s %s ." % tuple(map(rdf.show, t)) for t in ts)), "1")["r"]
                if x.get("exc") or x["ret"] < 0 and x["ret"] != OK: raise Violation("update failed: %s" % x)
                ts = [tuple(map(tuple, t)) for t in ts]
                g = [t for t in g if t not in ts] if op[0] == "D" else list(dict.fromkeys(g + ts))
        G = rdf.Graph(g)
        known = {x[1] for t in g for x in (t[0], t[2]) if x[0] == 'u'}
        qs = [q for q in case["qs"] if all(a in known for a in q["args"] if a[0] != "?")]
        if qs:
            texts = [self.text(q) for q in qs]
            rs = D.cmd("qm", name, *texts)["rs"]
            for q, t, x in zip(qs, texts, rs):
                if case["csr"] and case["upd"]:     # the preloaded adjacency lists are those of the load; only that it answers
                    rows_or_violation(x, t, ([q["group"]] if q.get("group") else []) + ["res"])
                    rep.ev(); rep.label("preloaded, then updated"); continue
                note = self.judge(g, G, q, t, x)
                rep.ev(); rep.label(q["f"], "directed" if q["dir"] else "undirected", *note)
                if "multi" in note or "connected" in note:
                    rep.nontrivial([sorted(map(repr, g)), t])
                    rep.sample({"triples": len(g), "query": t, "answer": x["body"][:300]})
        close_db(ctx, name)
    def judge(self, g, G, q, text, x):
        sel = ([q["group"]] if q.get("group") else []) + ["res"]
        rows = rows_or_violation(x, text, sel)
        if q["g"]:
            sols = rdf.eval_group(G, q["g"])
            if q.get("group"):
                groups = collections.defaultdict(list)
                for m in sols: groups[m[q["group"]]].append(m)
                keys = [r[0] for r in rows]
                if collections.Counter(keys) != collections.Counter(list(groups)): raise Violation("%s\n  groups %s, expected %s" % (text, keys, list(groups)))
                note = set()
                for r in rows: note |= self.one(g, q, text, r[1], groups[r[0]])
                return note
        else: sols = [{}]
        if len(rows) != 1: raise Violation("%s\n  %d rows, expected one" % (text, len(rows)))
        return self.one(g, q, text, rows[0][0], sols)
    def one(self, g, q, text, cell, sols):
        N = Net(g, q["preds"], q["neg"], q["dir"])
        f = q["f"]
        def bad(msg): raise Violation("%s\n  %s\n  answer %s" % (text, msg, cell))
        # a variable stands for the nodes it is bound to; literals are not nodes
        col = lambda a: [a] if a[0] != "?" else list(dict.fromkeys(m[a[1:]][1] for m in sols if m.get(a[1:]) and m[a[1:]][0] == 'u'))
        us = col(q["args"][0]) if q["args"] else [None]
        vs = col(q["args"][1]) if len(q["args"]) > 1 else [None]
        pairs = [(u, v) for u in us for v in vs]
        note = set()
        if len(pairs) > 1: note.add("multi")
        if f == "cycleBoolean":
            exp = any(u != v and v in N.dist(u) and u in N.dist(v) for u, v in pairs)
            if cell is None or cell[1] != ("true" if exp else "false"): bad("expected %s" % exp)
            if exp: note.add("connected")
            return note
        if cell is None: bad("no value")
        try: P = json.loads(cell[1])["paths"]
        except (ValueError, KeyError, TypeError) as e: bad("the value is not the JSON object it should be (%s)" % e)
        return note | (self.answers(f, N, q, pairs, P, bad) or set())
    def answers(self, f, N, q, pairs, P, bad):
        name = lambda s: s[1:-1] if s[:1] == "<" else s
        note = set()
        def keyed(val, single=True):
            got = collections.defaultdict(list)
            for e in P: got[(name(e["src"]), name(e["dst"]) if "dst" in e and isinstance(e["dst"], str) else None)].append(val(e))
            return got
        def walk(e, u, v):
            """The edges of a reported path, checked to lead from u to v over edges of the graph."""
            nm = {x["nodeIndex"]: name(x["nodeIRI"]) for x in e["nodes"]}
            at, out = u, []
            for d in e["edges"]:
                a, p, b = nm.get(d["fromNode"]), name(d["predIRI"]), nm.get(d["toNode"])
                if (a, p, b) not in N.E: bad("edge %s %s %s is not in the graph" % (a, p, b))
                if a == at and not (not N.directed and b == at): nxt = b
                elif not N.directed and b == at: nxt = a
                else: bad("the edges do not form a path from %s" % u)
                out.append((a, p, b)); at = nxt
            if at != v: bad("the path from %s ends in %s, not %s" % (u, at, v))
            if set(nm.values()) - {x for s, p, o in out for x in (s, o)}: bad("nodes that are not on the path are listed")
            return tuple(out)
        pairset = list(dict.fromkeys(pairs))
        if f in ("shortestPath", "shortestPathLen", "kHopReachablePath", "cyclePath", "kHopEnumerate"):
            got = keyed(lambda e: e)
            for u, v in pairset:
                es = got.pop((u, v), [])
                d = N.dist(u).get(v)
                if u != v and d is not None: note.add("connected")
                if f == "cyclePath":
                    want = u != v and d is not None and u in N.dist(v)
                    if len(es) != want: bad("%d cycles through %s and %s, expected %d" % (len(es), u, v, want))
                    if want:
                        w = walk(es[0], u, u)
                        if v not in {x for s, p, o in w for x in (s, o)}: bad("the cycle misses %s" % v)
                elif u == v:
                    if len(es) != 1: bad("%d entries for %s and itself" % (len(es), u))
                    if f == "shortestPathLen" and es[0]["length"] != 0 or f != "shortestPathLen" and es[0]["edges"]: bad("path from %s to itself is not empty" % u)
                elif f == "shortestPathLen":
                    if [e["length"] for e in es] != ([d] if d is not None else []): bad("length from %s to %s should be %s" % (u, v, d))
                elif f == "kHopEnumerate":
                    k = q["k"] if q["k"] >= 0 else 999
                    ps = N.simple_paths(u, v, k)
                    if ps is None:
                        for e in es: walk(e, u, v)
                        note.add("too many paths"); continue
                    ws = [walk(e, u, v) for e in es]
                    if collections.Counter(ws) != collections.Counter(ps): bad("paths from %s to %s: got %s, expected %s" % (u, v, sorted(ws), sorted(ps)))
                else:
                    lim = 10**9 if f == "shortestPath" or q["k"] < 0 else q["k"]
                    want = d is not None and d <= lim
                    if len(es) != want: bad("%d paths from %s to %s, expected %d" % (len(es), u, v, want))
                    if want:
                        w = walk(es[0], u, v)
                        if f == "shortestPath" and len(w) != d: bad("path from %s to %s has %d edges, the shortest has %d" % (u, v, len(w), d))
                        if len(w) > lim: bad("path from %s to %s has %d edges, more than %d" % (u, v, len(w), lim))
            if got: bad("unexpected entries for %s" % sorted(got))
        elif f == "kHopReachable":
            got = keyed(lambda e: e["value"])
            for u, v in pairset:
                d = N.dist(u).get(v)
                if u != v and d is not None: note.add("connected")
                want = "true" if d is not None and (q["k"] < 0 or d <= q["k"]) else "false"
                if got.pop((u, v), None) != [want]: bad("%s to %s should be %s" % (u, v, want))
            if got: bad("unexpected entries for %s" % sorted(got))
        elif f == "shortestPathCount":
            got = keyed(lambda e: e["count"])
            for u, v in pairset:
                n = N.shortest_count(u, v)
                if n and u != v: note.add("connected")
                g1 = got.pop((u, v), None)
                if u == v: continue
                if g1 != [n]: bad("%s to %s has %d shortest paths" % (u, v, n))
        elif f in ("SSSP", "SSSPLen"):
            got = keyed(lambda e: e)
            for u in dict.fromkeys(u for u, _ in pairset):
                d = N.dist(u)
                mine = {v: es for (s, v), es in got.items() if s == u}
                if len(d) > 1: note.add("connected")
                for v in d:
                    if v == u: mine.pop(v, None); continue
                    es = mine.pop(v, [])
                    if len(es) != 1: bad("%d entries from %s to %s, expected 1" % (len(es), u, v))
                    n = es[0]["length"] if f == "SSSPLen" else len(walk(es[0], u, v))
                    if n != d[v]: bad("distance from %s to %s is %d" % (u, v, d[v]))
                if mine: bad("%s does not lead to %s" % (u, sorted(mine)))
        elif f in ("kHopCount", "kHopNeighbor", "bfsCount", "closenessCentrality", "clusterCoeff"):
            got = collections.defaultdict(list)
            for e in P: got[name(e["src"])].append(e)
            for u in dict.fromkeys(u for u, _ in pairset):
                es = got.pop(u, [])
                if len(es) != 1: bad("%d entries for %s, expected 1" % (len(es), u))
                e = es[0]; d = N.dist(u)
                if len(d) > 1: note.add("connected")
                lay = collections.Counter(d.values())
                if f == "kHopCount":
                    if e["depth"] != q["k"] or e["count"] != lay[q["k"]]: bad("%d nodes are %d steps from %s" % (lay[q["k"]], q["k"], u))
                elif f == "kHopNeighbor":
                    exp = {x for x in d if d[x] == q["k"]}
                    have = [name(x) for x in e.get("dst", e.get("neighbor"))]
                    lim = q["ret"] if q.get("ret") is not None else 100
                    if len(have) != min(len(exp), lim) or not set(have) <= exp or len(set(have)) != len(have): bad("the nodes %d steps from %s are %s" % (q["k"], u, sorted(exp)))
                elif f == "bfsCount":
                    if [x["count"] for x in e["results"]] != [lay[i] for i in range(len(lay))] or [x["depth"] for x in e["results"]] != list(range(len(lay))): bad("layers of %s: %s" % (u, dict(lay)))
                elif f == "closenessCentrality":
                    tot = sum(d.values())
                    exp = (len(d) - 1) / tot if tot else 0
                    if abs(e["result"] - exp) > 1e-5: bad("closeness of %s should be %.6f" % (u, exp))
                elif f == "clusterCoeff":
                    k = len(N.around()[u])
                    if not N.E and e["result"] == -1: continue
                    if N.directed and N.parallel(): continue
                    exp = 0 if k < 2 else N.cyclic(u) / (k * (k - 1)) if N.directed else N.closed(u) * 2 / (k * (k - 1))
                    if abs(e["result"] - exp) > 1e-5: bad("clustering coefficient of %s should be %.6f" % (u, exp))
                    note.add("clustered" if exp else "not clustered")
            if got: bad("unexpected entries for %s" % sorted(got))
        elif f in ("triangleCounting", "clusterCoeffAll"):
            if len(P) != 1: bad("%d values, expected 1" % len(P))
            if not N.E and P[0] in (0, -1) or f == "clusterCoeffAll" and N.directed or N.directed and N.parallel(): return note
            if f == "triangleCounting": exp = N.cyclic() if N.directed else sum(N.closed(u) for u in N.nodes) // 3
            else:
                t = sum(N.closed(u) for u in N.nodes); w = sum(len(x) * (len(x) - 1) // 2 for x in N.around().values())
                exp = t / w if w else 0
            if abs(P[0] - exp) > 1e-5: bad("%s should be %s" % (f, exp))
            if exp: note.add("connected")
        elif f == "labelProp":      # communities: a partition, no community joins what no edge joins
            seen = [name(x) for c in P for x in c]
            if len(seen) != len(set(seen)) or not N.nodes <= set(seen): bad("not a partition of the nodes")
            comp = {x: c for c in N.wcc() for x in c}
            if any(len({comp.get(name(x), name(x)) for x in c}) != 1 for c in P): bad("a community joins nodes that are not connected")
            if len(P) < len(seen): note.add("connected")
        elif f == "WCC":
            have = [frozenset(map(name, c)) for c in P if len(set(c)) > 1]
            exp = {c for c in N.wcc() if len(c) > 1}
            if any(len(c) != len(set(c)) for c in P) or collections.Counter(have) != collections.Counter(exp): bad("components should be %s" % sorted(map(sorted, exp)))
            if exp: note.add("connected")
        return note
CHECK = C12()
