"""Histories of updates applied to gStore and to a set of triples."""
import os
import pbt, rdf
from common import *

LITS = [L("v0"), L("v1"), L(""), L("a b"), L("\u00e9\u65e5\u672c"), L("\U0001F600x"), L("x^^y"), L("it's <b> & ?x {y}"),
        L("5", None, XSD + "integer"), L("05", None, XSD + "integer"), L("2.5", None, XSD + "double"), L("hello", "en"), L("hello", "de"),
        L("hello"), L("true", None, XSD + "boolean"), L("2020-01-02T03:04:05", None, XSD + "dateTime"), L("e0"), L("z", None, "http://x.org/dt"),
        L("^^"), L("^^<x>"), L('a"^^<x>'), L('"@en'), L("y" * 300), L("w" * 3000)]

class Pool:
    """The few names a history works on; new ones appear as it goes on."""
    def __init__(self, r, ents=5, preds=3, lits=6):
        self.r = r
        k = r.random()
        pre = "http://ex.org/" if k < .4 else ""
        self.e = [U(pre + "e%d" % i) for i in range(ents)]
        self.p = [U(pre + "p%d" % i) for i in range(preds)]
        self.l = r.sample(LITS, min(lits, len(LITS)))
        self.pre = pre
        if r.random() < .25: self.p.append(self.e[0])       # a node that is also a predicate
        self.n = 0
    def ent(self):
        if self.r.random() < .08:
            self.n += 1; self.e.append(U(self.pre + "n%d" % self.n))
        return self.r.choice(self.e)
    def pred(self):
        if self.r.random() < .04:
            self.n += 1; self.p.append(U(self.pre + "q%d" % self.n))
        return self.r.choice(self.p)
    def obj(self):
        if self.r.random() < .4:
            if self.r.random() < .1:
                self.n += 1; self.l.append(L("new%d" % self.n))
            return self.r.choice(self.l)
        return self.ent()
    def triple(self, selfloop=True):
        while True:
            t = (self.ent(), self.pred(), self.obj())
            if selfloop or t[0] != t[2]: return t
    def triples(self, a, b, **k):
        return list(dict.fromkeys(self.triple(**k) for _ in range(self.r.randrange(a, b))))

def data(ts): return "{ " + " ".join("%s %s %s ." % tuple(rdf.show(tt(x)) for x in t) for t in ts) + " }"
def instantiate(tmpl, sols):
    out = []
    for m in sols:
        for t in tmpl:
            out.append(tuple(m[x[1]] if x[0] == 'v' else tt(x) for x in t[1:]))
    return out

class Model:
    def __init__(self, triples=()):
        self.s = set(tuple(tt(x) for x in t) for t in triples)
    def ins(self, ts):
        ts = set(tuple(tt(x) for x in t) for t in ts); n = len(ts - self.s); self.s |= ts; return n
    def rem(self, ts):
        ts = set(tuple(tt(x) for x in t) for t in ts); n = len(ts & self.s); self.s -= ts; return n
    def apply(self, op):
        """Effect of an update operation; returns (sparql text or None, number removed, number added)."""
        k = op[0]
        if k == 'ins': return "INSERT DATA " + data(op[1]), 0, self.ins(op[1])
        if k == 'del': return "DELETE DATA " + data(op[1]), self.rem(op[1]), 0
        if k == 'delw':
            sols = rdf.eval_group(self.s, op[1])
            return "DELETE WHERE " + rdf.show_group(op[1]), self.rem(instantiate(op[1], sols)), 0
        if k == 'mod':      # DELETE {a} INSERT {b} WHERE {c}
            sols = rdf.eval_group(self.s, op[3])
            t = ("DELETE %s " % rdf.show_group(op[1]) if op[1] else "") + ("INSERT %s " % rdf.show_group(op[2]) if op[2] else "")
            d, i = instantiate(op[1], sols), instantiate(op[2], sols)
            return t + "WHERE " + rdf.show_group(op[3]), self.rem(d), self.ins(i)
        if k == 'fins': return None, 0, self.ins(op[1])
        if k == 'fdel': return None, self.rem(op[1]), 0
        return None, 0, 0

class HistoryCheck(pbt.Check):
    """A case is {"init": triples, "ops": [op...]}; the database is compared with the set after every step."""
    csr = False
    def valid(self, case): return valid_graph(case["init"]) and all(self.valid_op(o) for o in case["ops"])
    def valid_op(self, o):
        if not isinstance(o, list) or not o: return False
        if o[0] in ('ins', 'del', 'fins', 'fdel'): return len(o) == 2 and valid_graph(o[1]) and len(o[1]) > 0 and self.op_domain(o)
        if o[0] == 'delw': return len(o) == 2 and valid_group(o[1]) and self.op_domain(o)
        if o[0] == 'mod':
            if len(o) != 4 or not (o[1] or o[2]) or not valid_group(o[3]): return False
            if any(not valid_group(x) for x in (o[1], o[2]) if x): return False
            vs = set(rdf.group_vars(o[3]))
            return all(set(rdf.group_vars(x)) <= vs for x in (o[1], o[2]) if x) and self.op_domain(o)
        return o[0] in ('save', 'reopen') and len(o) == 1
    def op_domain(self, o): return True
    def start(self, ctx, case):
        self.m = Model(case["init"]); self.ctx = ctx
        self.name = build_db(ctx, case["init"], self.csr)
    def do(self, op, rep):
        D = self.ctx.driver(); k = op[0]
        text, nd, ni = self.m.apply(op)
        if text is not None:
            x = D.cmd("q", self.name, text, "1")["r"]
            self.after_update(op, text, x, nd, ni)
        elif k in ('fins', 'fdel'):
            f = self.name + "_u.nt"
            self.ctx.write(f, rdf.nt(op[1]))
            x = D.cmd("binsert" if k == 'fins' else "bremove", self.name, f)
            os.unlink(self.ctx.path(f))
            if x.get("exc"): raise Violation("batch update failed: %s (%s)" % (x, op))
            self.after_file(op, x, nd, ni)
        elif k == 'save':
            x = D.cmd("save", self.name)
            if not x.get("ok"): raise Violation("save failed: %s" % x)
        elif k == 'reopen':
            D.cmd("close", self.name); load_db(self.ctx, self.name, self.csr)
        rep.label("op " + k)
        return nd, ni
    def after_update(self, op, text, x, nd, ni):
        if x.get("exc") or x["ret"] < 0: raise Violation("update failed (ret %s, %s): %s" % (x["ret"], x.get("exc"), text))
    def after_file(self, op, x, nd, ni): pass
    def verify(self, what):
        got = dump(self.ctx, self.name)
        compare(got, list(self.m.s), "contents %s" % what)
    def finish(self): close_db(self.ctx, self.name)

def wchoice(r, w):
    ks = [k for k in w if w[k] > 0]
    return r.choices(ks, [w[k] for k in ks])[0]

def upd_ok(b):
    """Patterns update WHERE clauses are generated from (the excluded shapes belong to C05's known findings)."""
    return not bgp_class(b) & {"self-join variable"}

def gen_where(r, m, p, tries=20):
    ex = jl(sorted(m.s, key=repr))
    for _ in range(tries):
        if not ex: return None
        b = seeded_bgp(r, ex, r.randrange(1, 3))
        if not upd_ok(b) or not rdf.group_vars(b): continue
        x = r.random()
        if x < .15: return b + [["filter", ["cmp", "!=", ["var", r.choice(rdf.group_vars(b))], ["term", jl(p.ent())]]]]
        return b
    return None

def gen_op(r, k, p, m, size=5):
    """One operation of kind k over pool p in state m, or None when the state has no use for it."""
    if k in ('ins', 'fins'):
        ts = p.triples(1, size + 1)
        if r.random() < .3 and m.s: ts.append(r.choice(sorted(m.s, key=repr)))      # already there
        if r.random() < .15: ts.append(r.choice(ts))                                # twice in one update
        return [k, ts]
    if k in ('del', 'fdel'):
        ex = sorted(m.s, key=repr)
        n = r.randrange(1, size + 1)
        ts = ex if r.random() < .04 else r.sample(ex, min(len(ex), n))
        if r.random() < .4 or not ts: ts = ts + p.triples(1, 3)                     # mostly absent ones
        if r.random() < .15: ts = ts + [r.choice(ts)]
        return [k, ts]
    if k == 'delw':
        b = gen_where(r, m, p)
        return b and [k, [t for t in b if t[0] == 't']]
    if k == 'mod':
        b = gen_where(r, m, p)
        if not b: return None
        pats = [t for t in b if t[0] == 't']
        sv = sorted({x[1] for t in pats for x in t[1:2] if x[0] == 'v'})
        av = rdf.group_vars(pats)
        d = [r.choice(pats)] if r.random() < .7 else []
        if d and r.random() < .2: d = pats
        i = []
        if r.random() < .7 or not d:
            for _ in range(r.choice([1, 1, 2])):
                s = V(r.choice(sv)) if sv and r.random() < .8 else p.ent()
                ov = [v for v in av if not any(t[2] == ['v', v] for t in pats)]
                o = V(r.choice(ov)) if ov and r.random() < .5 else p.obj()
                i.append(["t", s, p.pred(), o])
        return [k, d, i, b]
    return [k]

def gen_history(r, weights, n, p=None, init=None, size=5):
    p = p or Pool(r)
    init = p.triples(0, 14) if init is None else init
    m = Model(init); ops = []
    for _ in range(n):
        k = wchoice(r, weights)
        o = gen_op(r, k, p, m, size)
        if o is None: continue
        ops.append(jl(o)); m.apply(ops[-1])
    return jl({"init": init, "ops": ops})

def bulk_triples(r, n, ents, preds=6, lits=200, hubs=True):
    hub = [r.randrange(ents) for _ in range(2)]
    g = set()
    for _ in range(n):
        s = r.choice(hub) if hubs and r.random() < .15 else r.randrange(ents)
        o = L("val %d" % r.randrange(lits)) if r.random() < .3 else U("e%d" % (r.choice(hub) if hubs and r.random() < .15 else r.randrange(ents)))
        g.add((U("e%d" % s), U("p%d" % min(r.randrange(preds), r.randrange(preds))), o))
    return sorted(g, key=repr)

def gen_bulk(r, weights, n):
    """Histories whose states hold thousands of triples: hub nodes, long value lists, whole-node removals."""
    ents = r.choice([40, 300, 1500])
    init = bulk_triples(r, r.choice([200, 1500, 3000]), ents)
    m = Model(init); ops = []
    for _ in range(n):
        k = wchoice(r, weights)
        if k == 'fins': o = [k, bulk_triples(r, r.choice([50, 400, 1200]), ents)]
        elif k == 'ins': o = [k, bulk_triples(r, r.choice([5, 60]), ents)]
        elif k in ('fdel', 'del'):
            ex = sorted(m.s, key=repr)
            if not ex: continue
            x = r.random()
            if x < .4: ts = r.sample(ex, min(len(ex), 60 if k == 'del' else r.choice([100, 800])))
            elif x < .7:        # everything about one node
                c = r.choice(ex)[0]; ts = [t for t in ex if t[0] == c or t[2] == c]
            elif x < .9:
                c = r.choice(ex); ts = [t for t in ex if t[1] == c[1] and (r.random() < .5 or t[2] == c[2])]
            else: ts = ex
            if k == 'del': ts = ts[:60]
            o = [k, ts]
        else: o = [k]
        ops.append(jl(o)); m.apply(o)
    return jl({"init": init, "ops": ops})

def gen_huge(r):
    """Tens of thousands of different terms, most of which go away and some of which come back: the string trees split and merge at every level."""
    n = r.choice([17000, 24000]); w = r.choice(["%d", "%06d"]); same = r.random() < .3
    o = (lambda i: L("x" + w % i)) if not same else (lambda i: L("x%d" % (i % 50)))
    T = lambda i: (U("n" + w % i), U("p%d" % (i % 3)), o(i))
    ids = list(range(n)); init = [T(i) for i in ids]
    x = r.random(); a = r.randrange(n // 4)
    if x < .4: gone = ids[a:a + int(n * .7)]                      # a run of neighbouring terms
    elif x < .7: gone = r.sample(ids, int(n * .8))
    else: gone = ids
    ops = [["fdel", [T(i) for i in gone]]]
    if r.random() < .5: ops.append(["reopen"])
    ops.append(["fins", [T(i) for i in r.sample(range(n + 4000), 3000)]])
    if r.random() < .5: ops.append(["fdel", [T(i) for i in r.sample(ids, n // 3)]])
    if r.random() < .7: ops.append(["reopen"])
    return jl({"init": init, "ops": ops})

def shape_queries(s, p, o):
    """The query of each access shape around a triple: (text, selected variables, pattern)."""
    out = []
    for mask in range(1, 8):
        pat = [V("s") if mask & 1 else s, V("p") if mask & 2 else p, V("o") if mask & 4 else o]
        sel = [x[1] for x in pat if x[0] == 'v']
        out.append(("SELECT %s WHERE { %s }" % (" ".join("?" + v for v in sel), " ".join(map(rdf.show, pat)) + " ."), sel, pat))
    return out

def shape_expect(g, sel, pat):
    return [tuple(m[v] for v in sel) for m in rdf.match(g, pat, {})]

def probes(s, n):
    """n access-shape probes spread over the triples of s."""
    g = rdf.Graph(s); ts = sorted(s, key=repr)
    for k in range(n if ts else 0):
        q = shape_queries(*ts[k * len(ts) // n])[k % 7]
        yield q[0], shape_expect(g, q[1], q[2]), q[1]
