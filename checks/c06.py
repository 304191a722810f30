import random
import pbt, rdf
from common import *

def bgp_terms(b):
    return [x for t in b for x in t[1:]]

def simple_filter(r, vs, g, plain):
    """A filter over variables vs: (in)equality with a term of the graph or another variable, BOUND, negation."""
    x = r.random(); v = r.choice(vs)
    t = r.choice(g)[r.choice([0, 2])]
    if not plain: return ["filter", r.choice([["bound", v], ["not", ["bound", v]], ["call", "isIRI", ["var", v]], ["call", "isLiteral", ["var", v]]])]
    if x < .25: e = ["cmp", "=", ["var", v], ["term", t]]
    elif x < .5: e = ["cmp", "!=", ["var", v], ["term", t]]
    elif x < .65: e = ["bound", v]
    elif x < .8: e = ["not", ["bound", v]]
    elif len(vs) > 1: e = ["cmp", r.choice(["=", "!="]), ["var", v], ["var", r.choice([u for u in vs if u != v])]]
    else: e = ["call", "isIRI", ["var", v]]
    return ["filter", e]

def mutate(r, b, g):
    """Changes one constant so that the part often has no match."""
    b = jl(b); t = r.choice(b)
    if t[2][0] == 'u': t[2] = jl(r.choice(g)[1])
    return b

class C06(QueryCheck):
    prop = "C06"
    title = "OPTIONAL, UNION, MINUS, FILTER, BIND and nesting follow the SPARQL algebra"
    technique = "property-based testing against a reference evaluator of the SPARQL algebra"
    rule = ("a case builds a database of 3-21 triples over 5 entities (three quarters of them with IRIs and plain strings only) and asks 14 "
            "queries: a pattern seeded by a walk in the graph is cut into a main part and up to four OPTIONAL, UNION, MINUS or nested-group "
            "parts (nested up to two levels, some made unmatchable), with FILTERs (=, !=, BOUND, negation, isIRI, isLiteral) anywhere in the "
            "group and BINDs of constants or bound variables; projection and DISTINCT random. Every answer is compared with the reference "
            "evaluator as a multiset. Non-trivial: uses such an operator and has an answer; distinct by (graph, query text).")
    quick = 1500; thorough = 60000
    feats = ("opt", "union", "minus", "filter", "bind", "group")
    def gen(self, r, i, tier):
        self.plain = r.random() < .75       # only IRIs and plain strings: every comparison has one meaning
        obj = (lambda: U("e%d" % r.randrange(5)) if r.random() < .7 else L("v%d" % r.randrange(4))) if self.plain else None
        g = graph(r, r.randrange(3, 22), ents=5, obj=obj, mixed=i % 6 == 5)
        return {"graph": g, "qs": [self.gen_q(r, g) for _ in range(14)]}
    def gen_q(self, r, g):
        while True:
            grp = self.gen_group(r, g, 0)
            vs = rdf.group_vars(grp)
            if not vs: continue
            sel = vs if r.random() < .6 else r.sample(vs, r.randrange(1, len(vs) + 1))
            if r.random() < .03: sel = ["zz"] + sel     # a variable of no pattern
            q = {"g": grp, "sel": sel, "distinct": r.random() < .25}
            if self.in_domain(q): return q
    def gen_group(self, r, g, depth, base=None):
        feats = self.feats
        k = r.randrange(2, 6)
        b = base or seeded_bgp(r, g, k, names=("a", "b", "c", "d", "f", "h"))
        r.shuffle(b)
        cut = r.randrange(1, len(b) + 1)
        main, rest = b[:cut], b[cut:]
        out = list(main)
        while rest:
            n = r.randrange(1, len(rest) + 1); part, rest = rest[:n], rest[n:]
            kind = r.choice([f for f in feats if f in ("opt", "union", "minus", "group")] or ["none"])
            if r.random() < .3: part = mutate(r, part, g)
            sub = part
            if depth < 1 and r.random() < .25 and len(part) > 1: sub = self.gen_group(r, g, depth + 1, part)
            if kind == "opt":
                if "filter" in feats and r.random() < .25:
                    vs = rdf.group_vars(sub)
                    if vs: sub = sub + [simple_filter(r, vs, g, self.plain)]
                out.append(["opt", sub])
            elif kind == "union":
                alt = [sub]
                for _ in range(r.choice([1, 1, 2])):
                    alt.append(mutate(r, part, g) if r.random() < .6 else seeded_bgp(r, g, r.randrange(1, 3), names=("a", "b", "c", "d", "f", "h")))
                r.shuffle(alt)
                out.append(["union", alt])
            elif kind == "minus": out.append(["minus", sub])
            elif kind == "group": out.append(["group", sub])
        vs = rdf.group_vars(out)
        if "filter" in feats and vs and r.random() < .35: out.insert(r.randrange(len(out) + 1) if r.random() < .3 else len(out), simple_filter(r, vs, g, self.plain))
        if "bind" in feats and vs and r.random() < .15:
            vs = rdf.group_vars(main)
            e = r.choice([["var", r.choice(vs)] if vs else ["term", jl(L("z"))], ["term", jl(L("k"))], ["term", jl(U("k"))]])
            out.append(["bind", e, "z%d" % depth])
        return out
    def in_domain(self, q): return groups_ok(q["g"])
    def labels(self, g, q, exp): return sorted(group_features(q["g"]))
    def interesting(self, g, q, exp): return len(exp) > 0 and bool(group_features(q["g"]))

def walk(g):
    for el in g:
        yield el
        if el[0] in ("opt", "minus", "group"): yield from walk(el[1])
        elif el[0] == "union":
            for x in el[1]: yield from walk(x)
def group_features(g):
    return {el[0] for el in walk(g)} - {"t"}
def expr_vars(e):
    if e[0] == "var" or e[0] == "bound": return {e[1]}
    if e[0] == "term": return set()
    return set().union(*[expr_vars(x) for x in e[1:] if isinstance(x, list)])
def groups_ok(g):
    for el in [["group", g]] + [x for x in walk(g) if x[0] in ("opt", "minus", "group", "union")]:
        for sub in (el[1] if el[0] == "union" else [el[1]]):
            sure = {x[1] for t in sub if t[0] == "t" for x in t[1:] if x[0] == "v"}
            for x in sub:
                if x[0] == "filter" and el[0] == "opt" and not expr_vars(x[1]) <= sure: return False    # finding C06-optfilter
                if x[0] == "bind" and not expr_vars(x[1]) <= sure: return False
            if "self-join variable" in bgp_class([t for t in sub if t[0] == "t"]): return False
    return True
CHECK = C06()
