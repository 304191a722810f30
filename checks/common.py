"""Generators and helpers shared by the checks."""
import collections, json, os
import pbt, rdf
from pbt import Violation, Skip
from rdf import U, L, V, XSD, tt

OK = -100
UPD = -200

# ---------------------------------------------------------------- validity of (shrunk) cases
def is_term(t, var=False):
    if not isinstance(t, (list, tuple)) or not t: return False
    if t[0] == 'u': return len(t) == 2 and isinstance(t[1], str) and t[1] != ""
    if t[0] == 'l': return len(t) == 4 and isinstance(t[1], str)
    return var and t[0] == 'v' and len(t) == 2
def valid_triple(t):
    return isinstance(t, (list, tuple)) and len(t) == 3 and all(is_term(x) for x in t) and t[0][0] == 'u' and t[1][0] == 'u'
def valid_graph(g):
    return isinstance(g, list) and all(valid_triple(t) for t in g)
def valid_pat(el):
    return len(el) == 4 and all(is_term(x, True) for x in el[1:]) and el[1][0] in 'uv' and el[2][0] in 'uv'

# ---------------------------------------------------------------- graphs
def small_object(r, ents, rich=False):
    x = r.random()
    if x < .65: return U("e%d" % r.randrange(ents))
    return r.choice([L("v%d" % r.randrange(4)), L(str(r.randrange(5)), None, XSD + "integer"),
                     L("w%d" % r.randrange(3), "en"), L("%d.5" % r.randrange(3), None, XSD + "double")])

def graph(r, n, ents=6, preds=3, obj=None, mixed=False):
    """n random triples over few names, so that patterns join; mixed: some names are nodes and predicates."""
    g = set()
    obj = obj or (lambda: small_object(r, ents))
    ent = lambda: U("p%d" % r.randrange(preds)) if mixed and r.random() < .3 else U("e%d" % r.randrange(ents))
    pred = lambda: U("e%d" % r.randrange(2)) if mixed and r.random() < .3 else U("p%d" % r.randrange(preds))
    for _ in range(n):
        g.add((ent(), pred(), ent() if mixed and r.random() < .3 else obj()))
    return jl(sorted(g, key=repr))

def mid_graph(r):
    """Hundreds of entities: long adjacency lists, hubs, predicates of very different sizes."""
    ents = r.choice([120, 180, 300]); preds = r.randrange(3, 8)
    n = r.choice([300, 500, 900])
    g = set()
    hub = [r.randrange(ents) for _ in range(3)]
    w = [r.random() ** 3 + .02 for _ in range(preds)]
    for _ in range(n):
        s = r.choice(hub) if r.random() < .08 else r.randrange(ents)
        p = r.choices(range(preds), w)[0]
        if r.random() < .25: o = L("v%d" % r.randrange(30))
        else: o = U("e%d" % (r.choice(hub) if r.random() < .08 else r.randrange(ents)))
        g.add((U("e%d" % s), U("p%d" % p), o))
    return jl(sorted(g, key=repr))

def jl(x):
    """tuples -> lists, so a case is the same value before and after JSON."""
    return json.loads(json.dumps(x))

def seeded_bgp(r, g, k=None, names=("a", "b", "c", "d", "f"), pnames=("x", "y"), cp=.8):
    """A BGP obtained from k triples of g by turning terms into variables, so it has at least one solution."""
    k = k or r.randrange(1, 5)
    pick = [r.choice(g)]
    for _ in range(k - 1):
        nodes = {repr(x) for t in pick for x in (t[0], t[2])}
        near = [t for t in g if repr(t[0]) in nodes or repr(t[2]) in nodes]
        pick.append(r.choice(near if near and r.random() < .9 else g))
    mp, pm, out = {}, {}, []
    free, pfree = list(names), list(pnames)
    r.shuffle(free); r.shuffle(pfree)
    def node(t, c):
        if repr(t) not in mp:
            if repr(t) in pm and r.random() < .5: mp[repr(t)] = pm[repr(t)]
            else: mp[repr(t)] = None if not free or r.random() < c else V(free.pop())
        return mp[repr(t)] or t
    for s, p, o in pick:
        pp = p
        if r.random() > cp:
            k = repr(p)
            if mp.get(k) and r.random() < .5: pp = mp[k]
            elif k in pm and r.random() < .6: pp = pm[k]
            elif pfree: pp = pm.setdefault(k, V(pfree.pop())) if k not in pm else V(pfree.pop())
        t = jl(["t", node(s, .15), pp, node(o, .25)])
        if t not in out: out.append(t)
    return out

# ---------------------------------------------------------------- query texts
def q_text(q):
    """SELECT/ASK text of a structured query."""
    t = q["text"] if "text" in q else q_body(q)
    return "PREFIX xsd: <%s> %s" % (XSD, t) if "^^xsd:" in t else t

def q_body(q):
    if q.get("ask"): return "ASK WHERE " + rdf.show_group(q["g"])
    head = "DISTINCT " if q.get("distinct") else ""
    sel = " ".join(sel_item(x) for x in q["sel"]) if q.get("sel") else "*"
    t = "SELECT %s%s WHERE %s" % (head, sel, rdf.show_group(q["g"]))
    if q.get("group"): t += " GROUP BY " + " ".join("?" + v for v in q["group"])
    if q.get("order"):
        t += " ORDER BY " + " ".join(("DESC(%s)" if d else "ASC(%s)") % ("?" + v) for v, d in q["order"])
    if q.get("limit") is not None: t += " LIMIT %d" % q["limit"]
    if q.get("offset") is not None: t += " OFFSET %d" % q["offset"]
    return t

def sel_item(x):
    if isinstance(x, str): return "?" + x
    f, d, v, alias = x      # aggregate: function, distinct, variable or *, alias
    return "(%s(%s%s) AS ?%s)" % (f, "DISTINCT " if d else "", "*" if v == "*" else "?" + v, alias)

def solutions(g, q):
    """Expected solution rows over q's selected variables (before ORDER/LIMIT), as a list of tuples."""
    sols = rdf.eval_group(g, q["g"])
    sel = q.get("sel") or rdf.group_vars(q["g"])
    rows = [tuple(m.get(v) for v in sel) for m in sols]
    return list(dict.fromkeys(rows)) if q.get("distinct") else rows

def fmt_rows(rows, n=6):
    rows = sorted(rows, key=repr)
    if rows and rows[0] and isinstance(rows[0][0], str): return repr(rows[:n])
    return "[" + ", ".join("(" + " ".join("-" if x is None else rdf.show(x) if x[0] in "ul" and len(x) != 3 else str(x) for x in r) + ")"
                          for r in rows[:n]) + (", ... %d rows" % len(rows) if len(rows) > n else "") + "]"

def rows_or_violation(x, text, sel, star=False):
    """Result rows of a driver reply; a failed or unparsable answer to a valid query is a violation."""
    if x.get("exc") or x["ret"] != OK:
        raise Violation("query failed (ret %s, %s): %s" % (x["ret"], x.get("exc", "no exception"), text))
    try: hv, rows = rdf.rows_of(x["body"], sel)
    except (ValueError, KeyError, TypeError) as e: raise Violation("result is not well-formed JSON (%s): %s\n%s" % (e, text, x["body"][:500]))
    # SELECT *: the head lists the variables in any order, and only those some solution binds (WHERE parts that bind nothing may be left out)
    if star and set(hv) <= set(sel) and len(set(hv)) == len(hv): return [tuple(dict(zip(hv, x)).get(v) for v in sel) for x in rdf.rows_of(x["body"], hv)[1]] if len(hv) < len(sel) else rows
    if list(hv) != list(sel): raise Violation("result head %s differs from the selected variables %s: %s" % (hv, sel, text))
    return rows

def compare(got, exp, text, mode="multiset", graph=None):
    if mode == "set": bad = set(got) != set(exp)
    elif mode == "list": bad = got != exp
    else: bad = collections.Counter(got) != collections.Counter(exp)
    if bad:
        g, e = collections.Counter(got), collections.Counter(exp)
        if mode == "set": g, e = collections.Counter(set(got)), collections.Counter(set(exp))
        extra, missing = list((g - e).elements()), list((e - g).elements())
        raise Violation("%s\n  got %d rows, expected %d (compared as %s)\n  unexpected: %s\n  missing: %s%s" % (
            text, len(got), len(exp), mode, fmt_rows(extra), fmt_rows(missing),
            "\n  in order: got %s, expected %s" % (got[:8], exp[:8]) if mode == "list" else ""))

# ---------------------------------------------------------------- databases
def build_db(ctx, triples, csr=False, name=None, text=None):
    """Builds and loads a database; returns its name."""
    D = ctx.driver()
    name = name or ctx.fresh()
    f = name + ".nt"
    ctx.write(f, rdf.nt(triples) if text is None else text)
    x = D.cmd("build", name, f if (triples or text) else "")
    if not x.get("ok"): raise Violation("building a database of %d triples failed: %s" % (len(triples), x))
    load_db(ctx, name, csr)
    os.unlink(ctx.path(f))
    return name

def load_db(ctx, name, csr=False):
    x = ctx.driver().cmd("load", name, "1" if csr else "0")
    if not x.get("ok"): raise Violation("loading the database failed: %s" % x)

def close_db(ctx, name, remove=True):
    ctx.driver().cmd("close", name)
    if remove: ctx.rmdb(name)

def dump(ctx, name):
    """All triples as a list, through ?s ?p ?o."""
    x = ctx.driver().cmd("qm", name, "SELECT ?s ?p ?o WHERE { ?s ?p ?o . }")["rs"][0]
    return rows_or_violation(x, "SELECT ?s ?p ?o WHERE { ?s ?p ?o . }", ["s", "p", "o"])

class QueryCheck(pbt.Check):
    """A case is {"graph": triples, "qs": [structured query...]}; every query is answered by gStore and by the model."""
    csr = False
    def mode(self, q): return "multiset"
    def expected(self, g, q): return solutions(g, q)
    def sel(self, q): return [x if isinstance(x, str) else x[3] for x in (q.get("sel") or rdf.group_vars(q["g"]))]
    def judge(self, g, q, text, reply, rep):
        exp = self.expected(g, q)
        got = rows_or_violation(reply, text, self.sel(q), not q.get("sel"))
        compare(got, exp, text, self.mode(q))
        return exp
    def labels(self, g, q, exp): return []
    def interesting(self, g, q, exp): return len(exp) > 0
    def valid(self, case):
        return isinstance(case, dict) and valid_graph(case["graph"]) and len(case["qs"]) > 0 and all(self.valid_q(q) for q in case["qs"])
    def valid_q(self, q):
        return valid_group(q["g"]) and self.in_domain(q)
    def in_domain(self, q): return True
    def run(self, ctx, case, rep):
        g = rdf.Graph(case["graph"])
        qs = []
        for q in case["qs"]:
            try: qs.append((q, self.expected(g, q)))
            except rdf.TooBig: rep.exclude("answer too large for the reference model")
            except rdf.Ambig: rep.exclude("outcome left open by the specification")
        if not qs: return
        name = build_db(ctx, case["graph"], self.csr)
        texts = [q_text(q) for q, _ in qs]
        rs = ctx.driver().cmd("qm", name, *texts)["rs"]
        for (q, _), text, reply in zip(qs, texts, rs):
            exp = self.judge(g, q, text, reply, rep)
            rep.ev()
            rep.label(*self.labels(g, q, exp))
            rep.label("rows 0" if not exp else "rows 1-9" if len(exp) < 10 else "rows 10-99" if len(exp) < 100 else "rows 100+")
            if self.interesting(g, q, exp):
                rep.nontrivial([sorted(map(repr, case["graph"])), text])
                rep.sample({"triples": len(g), "query": text, "answers": len(exp), "first": [list(map(str, x)) for x in exp[:2]]})
        close_db(ctx, name)

def valid_group(g):
    if not isinstance(g, list) or not g: return False
    for el in g:
        if not isinstance(el, list) or not el: return False
        if el[0] == 't':
            if not valid_pat(el): return False
        elif el[0] in ('opt', 'minus', 'group'):
            if len(el) != 2 or not valid_group(el[1]): return False
        elif el[0] == 'union':
            if len(el) != 2 or not isinstance(el[1], list) or len(el[1]) < 2 or not all(valid_group(x) for x in el[1]): return False
        elif el[0] == 'filter':
            if len(el) != 2 or not valid_expr(el[1]): return False
        elif el[0] == 'sub':
            q = el[1]; vs = rdf.group_vars(q["g"])
            if not valid_group(q["g"]) or not rdf.sub_vars(q) or not set(q["sel"]) <= set(q.get("group") or vs if not q.get("aggs") else q.get("group") or []): return False
            if q.get("group") and not q["sel"] and not q.get("aggs"): return False
            if not {v for v, d in q.get("order") or []} <= set(rdf.sub_vars(q)): return False
        elif el[0] == 'bind':
            if len(el) != 3 or not valid_expr(el[1]): return False
        else: return False
    return True

def valid_expr(e):
    if not isinstance(e, list) or not e: return False
    k = e[0]
    if k == 'term': return len(e) in (2, 3) and is_term(e[1])
    if k == 'var' or k == 'bound': return len(e) == 2 and isinstance(e[1], str) and e[1] != ""
    if k in ('cmp', 'arith'): return len(e) == 4 and valid_expr(e[2]) and valid_expr(e[3])
    if k in ('and', 'or'): return len(e) >= 3 and all(valid_expr(x) for x in e[1:])
    if k in ('not', 'neg'): return len(e) == 2 and valid_expr(e[1])
    if k in ('in', 'notin'): return len(e) == 3 and valid_expr(e[1]) and len(e[2]) > 0 and all(valid_expr(x) for x in e[2])
    if k == 'call': return len(e) >= 2 and isinstance(e[1], str) and e[1] != "" and all(valid_expr(x) for x in e[2:])
    return False

def pattern_vars(el): return [x[1] for x in el[1:] if x[0] == 'v']
def bgp_class(pats):
    """Feature labels of a basic graph pattern."""
    f = set()
    pv, so = [], set()
    for t in pats:
        v = pattern_vars(t)
        if not v: f.add("constant pattern")
        if len(set(v)) < len(v): f.add("self-join variable")
        if t[2][0] == 'v': f.add("predicate variable"); pv.append(t[2][1])
        so |= {x[1] for x in (t[1], t[3]) if x[0] == 'v'}
    if len(set(pv)) < len(pv): f.add("repeated predicate variable")
    if so & set(pv): f.add("predicate variable as node")
    comps = []
    for t in pats:
        v = set(pattern_vars(t))
        if not v: continue
        m = [c for c in comps if c & v]
        comps = [c for c in comps if not c & v] + [set.union(v, *m)]
    if len(comps) > 1: f.add("cartesian product")
    if len(pats) == 1: f.add("single pattern")
    return f
