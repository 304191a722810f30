import sys, random, collections
sys.path.insert(0, "/verif/tools")
import gs, rdf
from rdf import U, L, V, XSD
EXE = "/verif/build/opt/bin/gsdrv"
def rand_graph(r, n, ents=6, preds=3, lits=True):
    g = set()
    for _ in range(n):
        s = U("e%d" % r.randrange(ents)); p = U("p%d" % r.randrange(preds))
        if lits and r.random() < .35:
            o = r.choice([L("v%d" % r.randrange(4)), L(str(r.randrange(5)), None, XSD+"integer"), L("w%d" % r.randrange(3), "en"), L("%d.5" % r.randrange(3), None, XSD + "double")])
        else: o = U("e%d" % r.randrange(ents))
        g.add((s, p, o))
    return sorted(g, key=repr)
def run(D, graph, queries, name="t"):
    open(D.cwd + "/a.nt", "w").write(rdf.nt(graph))
    D.cmd("build", name, "a.nt"); D.cmd("load", name, "0")
    out = D.cmd("qm", name, *queries)["rs"]
    D.cmd("close", name)
    import shutil; shutil.rmtree(D.cwd + "/%s.db" % name, ignore_errors=True)
    return out
