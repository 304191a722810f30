"""Reference model: RDF terms, a triple set, and a naive evaluator for the SPARQL subset gStore documents.

Terms are tuples: ('u', iri), ('l', lexical, lang, datatype) with None for absent parts. Variables: ('v', name).
A query pattern (group) is a list of elements, JSON-able:
  ['t', s, p, o]  ['opt', group]  ['union', [group...]]  ['minus', group]  ['group', group]
  ['filter', expr]  ['bind', expr, var]
Terms inside JSON cases are lists; tt() turns them into tuples.
"""
import json, re
XSD = "http://www.w3.org/2001/XMLSchema#"
NUMERIC = {XSD + t for t in ("integer", "decimal", "double", "float", "int", "long", "short", "byte")}

def U(x): return ('u', x)
def L(x, lang=None, dt=None): return ('l', x, lang, dt)
def V(x): return ('v', x)
def tt(t): return tuple(t)

def esc_lit(s):
    return s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\r', '\\r').replace('\t', '\\t')

def show(t):
    """N-Triples / SPARQL syntax of a term."""
    if t[0] == 'u': return '<%s>' % t[1]
    if t[0] == 'v': return '?' + t[1]
    s = '"%s"' % esc_lit(t[1])
    if t[2]: return s + '@' + t[2]
    if t[3]: return s + '^^<%s>' % t[3]
    return s

def nt(triples):
    return ''.join('%s %s %s .\n' % tuple(show(tt(x)) for x in tr) for tr in triples)

def from_json_cell(c):
    if c["type"] == "uri": return ('u', c["value"])
    if c["type"] in ("literal", "typed-literal"):
        return ('l', c["value"], c.get("lang"), c.get("datatype"))
    return ('?', json.dumps(c))

def rows_of(body, vars=None):
    """JSON result -> (vars, list of row tuples over `vars` order given by head, None for unbound)."""
    d = json.loads(body)
    hv = d["head"]["vars"]
    vs = vars or hv
    return hv, [tuple(from_json_cell(b[v]) if v in b else None for v in vs) for b in d["results"]["bindings"]]

# ---------------------------------------------------------------- expressions
class Err(Exception):
    """A SPARQL type error."""
class Ambig(Exception):
    """The outcome is not fixed by SPARQL 1.1 and gStore's documented type system: such a query is left out and counted."""

RANK = {"integer": 0, "decimal": 1, "float": 2, "double": 3, "long": 0}
NAME = {0: "integer", 1: "decimal", 2: "float", 3: "double"}
def isnum(t): return t is not None and t[0] == 'l' and t[3] is not None and t[3].startswith(XSD) and t[3][len(XSD):] in RANK and parse_num(t) is not None
def parse_num(t):
    k = RANK[t[3][len(XSD):]]
    try: return (k, int(t[1]) if k == 0 else float(t[1]))
    except ValueError: return None
def num(t):
    if not isnum(t): raise Err()
    return parse_num(t)[1]
def boolean(b): return L("true" if b else "false", None, XSD + "boolean")
def isbool(t): return t[0] == 'l' and t[3] == XSD + "boolean" and t[1] in ("true", "false")
def istime(t): return t[0] == 'l' and t[3] in (XSD + "dateTime", XSD + "date")
def timeval(t):
    v = [float(x) for x in re.findall(r'[0-9]+(?:\.[0-9]+)?', t[1])][:6]
    return v + [0.0] * (6 - len(v))
def isstr(t): return t[0] == 'l' and t[2] is None and t[3] in (None, XSD + "string")

def ebv(t):
    if t is None or t[0] == 'u': raise Err()
    if isbool(t): return t[1] == "true"
    if t[2]: raise Ambig()                      # language-tagged: a plain literal in SPARQL 1.0, an error later
    if isstr(t): return len(t[1]) > 0
    if isnum(t): return num(t) != 0
    if t[3] and t[3].startswith(XSD) and (t[3][len(XSD):] in RANK or t[3] == XSD + "boolean"): raise Ambig()    # ill-typed
    raise Err()

def small(x):
    """Values that gStore's numeric types hold exactly."""
    return abs(x) < 1 << 17 and x * 64 == int(x * 64)

def cmp_terms(op, a, b):
    if a is None or b is None: raise Err()
    if isnum(a) and isnum(b): x, y = num(a), num(b)
    elif isstr(a) and isstr(b):
        if a[3] != b[3]: raise Ambig()          # "a" and "a"^^xsd:string are one term in RDF 1.1, two in RDF 1.0
        x, y = a[1].encode(), b[1].encode()
    elif isbool(a) and isbool(b): x, y = a[1] == "true", b[1] == "true"
    elif istime(a) and istime(b):
        if a[3] != b[3]: raise Ambig()
        x, y = timeval(a), timeval(b)
    elif op in ('=', '!='):
        if a[0] != b[0]: return op == '!='
        if a == b and (a[0] == 'u' or a[3] is None or not a[3].startswith(XSD)): return op == '='
        if a[0] == 'u': return op == '!='
        if not (a[2] or b[2]): raise Ambig()    # different datatypes: a type error, or unequal
        if a[2] and b[2] and a[1] == b[1] and a[2].lower() == b[2].lower(): raise Ambig()
        return op == '!='
    elif a[0] == b[0] == 'u' or a[0] == b[0] == 'l' and (a[2] or b[2]): raise Ambig()   # gStore orders IRIs and tagged literals, an extension
    else: raise Err()
    return {'=': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]

def tri(x, mu):
    try: return ebv(ev(x, mu))
    except Err: return None

def ev(e, mu):
    """expr -> term, or raises Err. expr forms: ['term', t] ['var', name] ['cmp', op, a, b] ['and', a, b] ['or', a, b]
    ['not', a] ['bound', v] ['call', name, args...] ['in', a, [..]] ['notin', a, [..]] ['arith', op, a, b] ['neg', a]"""
    k = e[0]
    if k == 'term': return tt(e[1])
    if k == 'var':
        if mu.get(e[1]) is None: raise Err()
        return mu[e[1]]
    if k == 'cmp':
        err, x = False, []
        for s in e[2:]:
            try: x.append(ev(s, mu))
            except Err: err = True
        if err: raise Err()
        return boolean(cmp_terms(e[1], *x))
    if k in ('and', 'or'):
        r = [tri(x, mu) for x in e[1:]]
        if (k == 'or') in r: return boolean(k == 'or')
        if None in r: raise Err()
        return boolean(k == 'and')
    if k == 'not': return boolean(not ebv(ev(e[1], mu)))
    if k == 'bound': return boolean(mu.get(e[1]) is not None)
    if k in ('in', 'notin'):
        a = ev(e[1], mu); err = False
        for x in e[2]:
            try:
                if cmp_terms('=', a, ev(x, mu)): return boolean(k == 'in')
            except Err: err = True
        if err: raise Err()
        return boolean(k == 'notin')
    if k in ('arith', 'neg'):
        args = [ev(x, mu) for x in e[2 if k == 'arith' else 1:]]
        ns = []
        if k == 'arith' and any(istime(a) for a in args): raise Ambig()     # gStore subtracts dates, an extension
        for a in args:
            if not isnum(a): raise Err()
            ns.append(parse_num(a))
        if any(a[3] == XSD + "long" for a in args) or any(not small(x[1]) for x in ns): raise Ambig()
        if k == 'neg':
            kk, v = ns[0]; v = -v
        else:
            (ka, a), (kb, b) = ns; op = e[1]; kk = max(ka, kb)
            if op == '/':
                kk = max(kk, 1)
                if b == 0:
                    if kk == 1: raise Err()
                    raise Ambig()
                v = a / b
            else: v = {'+': a + b, '-': a - b, '*': a * b}[op]
        if not small(v): raise Ambig()
        return L(str(v) if kk == 0 else repr(float(v)), None, XSD + NAME[kk])
    if k == 'call':
        f = e[1]
        if f == 'IF': return ev(e[3] if ebv(ev(e[2], mu)) else e[4], mu)
        args = [ev(x, mu) for x in e[2:]]
        a = args[0] if args else None
        if f in ('isIRI', 'isURI'): return boolean(a[0] == 'u')
        if f == 'isLiteral': return boolean(a[0] == 'l')
        if f == 'isNumeric': return boolean(isnum(a))
        if f == 'STR':
            if a[0] == 'l' and isnum(a) and RANK[a[3][len(XSD):]] and e[2][0] not in ('var', 'term'): raise Ambig()    # canonical form of a computed value
            return L(a[1])
        if f == 'LANG':
            if a[0] != 'l': raise Err()
            return L(a[2] or "")
        if f == 'DATATYPE':
            if a[0] != 'l': raise Err()
            return U("http://www.w3.org/1999/02/22-rdf-syntax-ns#langString" if a[2] else a[3] or XSD + "string")
        if f in ('CONTAINS', 'STRSTARTS', 'REGEX'):
            if a[0] != 'l' or not (isstr(a) or a[2]) or args[1][0] != 'l' or not (isstr(args[1]) or args[1][2]): raise Err()
            if f != 'REGEX' and args[1][2] and a[2] != args[1][2]: raise Err()
            if f == 'REGEX' and any(x[0] != 'l' or x[2] or x[3] for x in args[1:]): raise Err()
            if f == 'CONTAINS': return boolean(args[1][1] in a[1])
            if f == 'STRSTARTS': return boolean(a[1].startswith(args[1][1]))
            fl = re.I if len(args) > 2 and 'i' in args[2][1] else 0
            return boolean(re.search(args[1][1], a[1], fl) is not None)
        if f == 'LANGMATCHES':
            if any(x[0] != 'l' or not isstr(x) for x in args): raise Err()
            if args[1][1] == '*': return boolean(a[1] != "")
            x, y = a[1].lower(), args[1][1].lower()
            return boolean(x == y or (y != "" and x.startswith(y + '-')))
        if f in ('UCASE', 'LCASE'):
            if a[0] != 'l' or not (isstr(a) or a[2]): raise Err()
            if not a[1].isascii(): raise Ambig()    # gStore maps ASCII letters only
            return ('l', a[1].upper() if f == 'UCASE' else a[1].lower(), a[2], a[3])
        if f == 'CONCAT':
            if any(x[0] != 'l' or not (isstr(x) or x[2]) for x in args): raise Err()
            if args and all(x[2] or x[3] for x in args): raise Ambig()
            return L(''.join(x[1] for x in args))
        if f in ('YEAR', 'MONTH', 'DAY', 'HOURS', 'MINUTES'):
            if not istime(a): raise Err()
            if a[3] == XSD + "date": raise Ambig()
            return L(str(int(timeval(a)[('YEAR', 'MONTH', 'DAY', 'HOURS', 'MINUTES').index(f)])), None, XSD + "integer")
        if f == 'ABS':
            if not isnum(a): raise Err()
            kk, v = parse_num(a)
            if not small(v): raise Ambig()
            return L(str(abs(v)) if kk == 0 else repr(abs(v)), None, a[3])
    raise AssertionError(e)

LEVEL = {'or': 1, 'and': 2, 'cmp': 3, 'in': 3, 'notin': 3, '+': 4, '-': 4, '*': 5, '/': 5, 'not': 6, 'neg': 6}
def show_expr(e, level=0):
    """Text of an expression with only the parentheses that precedence and left associativity require."""
    k = e[0]
    if k == 'term': return show(tt(e[1])) if len(e) == 2 else '"%s"^^xsd:%s' % (esc_lit(e[1][1]), e[1][3][len(XSD):])
    if k == 'var': return '?' + e[1]
    if k == 'bound': return 'BOUND(?%s)' % e[1]
    if k == 'call': return '%s(%s)' % (e[1], ', '.join(map(show_expr, e[2:])))
    l = LEVEL[e[1] if k == 'arith' else k]
    if k == 'cmp': s = '%s %s %s' % (show_expr(e[2], 4), e[1], show_expr(e[3], 4))
    elif k == 'arith': s = '%s %s %s' % (show_expr(e[2], l), e[1], show_expr(e[3], l + 1))
    elif k == 'and': s = ' && '.join(show_expr(x, 3) for x in e[1:])
    elif k == 'or': s = ' || '.join(show_expr(x, 2) for x in e[1:])
    elif k == 'not': s = '!' + show_expr(e[1], 7)
    elif k == 'neg': s = '- ' + show_expr(e[1], 7)
    elif k in ('in', 'notin'): s = '%s %s (%s)' % (show_expr(e[1], 4), 'IN' if k == 'in' else 'NOT IN', ', '.join(map(show_expr, e[2])))
    else: raise AssertionError(e)
    return '(%s)' % s if l < level or k in ('in', 'notin', 'cmp') and level > 0 and l == level else s

# ---------------------------------------------------------------- patterns (multisets as lists of dicts)
def compatible(a, b):
    for k, v in a.items():
        if k in b and b[k] != v: return False
    return True

def join(A, B):
    if len(A) * len(B) > 4000000: raise TooBig()
    return [dict(a, **b) for a in A for b in B if compatible(a, b)]

class TooBig(Exception):
    pass
LIMIT = 20000

class Graph:
    """A set of triples (term tuples) with hash indexes."""
    def __init__(self, triples):
        self.triples = set((tt(a), tt(b), tt(c)) for a, b, c in triples)
        self.idx = None
    def build(self):
        self.idx = {}
        for t in self.triples:
            for key in ((0, t[0]), (1, t[1]), (2, t[2]), (3, t[0], t[1]), (4, t[1], t[2]), (5, t[0], t[2])):
                self.idx.setdefault(key, []).append(t)
    def find(self, s, p, o):
        if self.idx is None: self.build()
        g = self.idx.get
        if s is not None and p is not None and o is not None:
            return ((s, p, o),) if (s, p, o) in self.triples else ()
        if s is not None: return g((3, s, p), ()) if p is not None else g((5, s, o), ()) if o is not None else g((0, s), ())
        if p is not None: return g((4, p, o), ()) if o is not None else g((1, p), ())
        return g((2, o), ()) if o is not None else self.triples
    def __len__(self): return len(self.triples)
    def __iter__(self): return iter(self.triples)

def match(graph, tr, mu):
    pat = [tt(x) for x in tr]
    val = [mu.get(x[1]) if x[0] == 'v' else x for x in pat]
    for t in graph.find(*val):
        m = mu
        for x, v in zip(pat, t):
            if x[0] == 'v':
                if x[1] in m:
                    if m[x[1]] != v: break
                else:
                    if m is mu: m = dict(mu)
                    m[x[1]] = v
        else:
            yield dict(m) if m is mu else m

def order_bgp(pats, bound):
    """Cheap join order for the reference evaluator: most bound positions first."""
    todo, out, bound = list(pats), [], set(bound)
    while todo:
        t = max(todo, key=lambda t: sum(2 if x[0] != 'v' else 3 if x[1] in bound else 0 for x in t[1:]))
        todo.remove(t); out.append(t)
        bound |= {x[1] for x in t[1:] if x[0] == 'v'}
    return out

def reorder(group):
    out, run, bound = [], [], set()
    for el in list(group) + [None]:
        if el is not None and el[0] == 't': run.append(el); continue
        out += order_bgp(run, bound)
        for t in run: bound |= {x[1] for x in t[1:] if x[0] == 'v'}
        run = []
        if el is not None: out.append(el)
    return out

def eval_group(graph, group):
    if not isinstance(graph, Graph): graph = Graph(graph)
    R = [{}]
    filters = []
    for el in reorder(group):
        k = el[0]
        if k == 't':
            out = []
            for mu in R:
                out.extend(match(graph, el[1:], mu))
                if len(out) > LIMIT: raise TooBig()
            R = out
        elif k == 'group':
            R = join(R, eval_group(graph, el[1]))
        elif k == 'union':
            alt = []
            for g in el[1]: alt += eval_group(graph, g)
            R = join(R, alt)
        elif k == 'opt':
            inner = [x for x in el[1] if x[0] != 'filter']
            fs = [x[1] for x in el[1] if x[0] == 'filter']
            B = eval_group(graph, inner); out = []
            for a in R:
                hit = False
                for b in B:
                    if compatible(a, b):
                        m = dict(a, **b)
                        if all(passes(f, m) for f in fs):
                            hit = True; out.append(m)
                if not hit: out.append(a)
            R = out
        elif k == 'minus':
            B = [b for b in eval_group(graph, el[1])]
            R = [a for a in R if not any(compatible(a, b) and (set(a) & set(b)) for b in B)]
        elif k == 'filter': filters.append(el[1])
        elif k == 'sub': R = join(R, eval_sub(graph, el[1]))
        elif k == 'bind':
            out = []
            for a in R:
                try: out.append(dict(a, **{el[2]: ev(el[1], a)}))
                except Err: out.append(a)
            R = out
        else: raise AssertionError(el)
        if len(R) > LIMIT: raise TooBig()
    for f in filters: R = [a for a in R if passes(f, a)]
    return R

def sub_vars(q): return list(q["sel"]) + [a[3] for a in q.get("aggs") or []]

def eval_sub(graph, q):
    """Solutions of a subquery. Slices must not depend on an order the query leaves open: those raise Ambig."""
    sols = eval_group(graph, q["g"])
    if q.get("group") or q.get("aggs"):
        groups = {}
        for m in sols: groups.setdefault(tuple(m.get(v) for v in q.get("group") or []), []).append(m)
        if not q.get("group") and not groups: groups[()] = []
        sols = []
        for key, rows in groups.items():
            m = {v: x for v, x in zip(q.get("group") or [], key) if x is not None}
            for f, d, v, alias in q.get("aggs") or []:
                vals = [tuple(sorted(x.items())) if v == "*" else x.get(v) for x in rows]
                vals = [x for x in vals if x is not None]
                m[alias] = L(str(len(set(vals) if d else vals)), None, XSD + "integer")
            sols.append(m)
    vs = sub_vars(q)
    rows = [{v: m[v] for v in vs if v in m} for m in sols]
    if q.get("distinct"): rows = [dict(t) for t in dict.fromkeys(tuple(sorted(m.items())) for m in rows)]
    lo = q.get("offset") or 0; hi = len(rows) if q.get("limit") is None else lo + q["limit"]
    if lo or hi < len(rows):
        key = lambda m: tuple((0,) if v not in m else (1, m[v][1]) if m[v][0] == 'u' else (2, m[v][1]) for v, d in q.get("order") or [])
        for m in rows:
            for v, d in q.get("order") or []:
                if v in m and m[v][0] == 'l' and (m[v][2] or m[v][3]): raise Ambig("order of other literals than strings")
        for i in range(len(q.get("order") or []) - 1, -1, -1):
            v, d = q["order"][i]
            rows.sort(key=lambda m: key(m)[i], reverse=d)
        for c in (lo, hi):
            if 0 < c < len(rows) and key(rows[c - 1]) == key(rows[c]) and rows[c - 1] != rows[c]: raise Ambig("the slice of a subquery depends on an unspecified order")
        rows = rows[lo:hi]
    return rows

def show_sub(q):
    t = "SELECT %s%s WHERE %s" % ("DISTINCT " if q.get("distinct") else "", " ".join(["?" + v for v in q["sel"]] +
        ["(%s(%s%s) AS ?%s)" % (f, "DISTINCT " if d else "", "*" if v == "*" else "?" + v, al) for f, d, v, al in q.get("aggs") or []]), show_group(q["g"]))
    if q.get("group"): t += " GROUP BY " + " ".join("?" + v for v in q["group"])
    if q.get("order"): t += " ORDER BY " + " ".join(("DESC(?%s)" if d else "ASC(?%s)") % v for v, d in q["order"])
    if q.get("limit") is not None: t += " LIMIT %d" % q["limit"]
    if q.get("offset"): t += " OFFSET %d" % q["offset"]
    return t

def passes(f, mu):
    try: return ebv(ev(f, mu))
    except Err: return False

def group_vars(group, acc=None):
    acc = [] if acc is None else acc
    def add(v):
        if v not in acc: acc.append(v)
    for el in group:
        if el[0] == 't':
            for x in el[1:]:
                if x[0] == 'v': add(x[1])
        elif el[0] in ('group', 'opt'): group_vars(el[1], acc)
        elif el[0] == 'union':
            for g in el[1]: group_vars(g, acc)
        elif el[0] == 'bind': add(el[2])
        elif el[0] == 'sub':
            for v in sub_vars(el[1]): add(v)
    return acc

def show_group(group, ind=' '):
    out = []
    for el in group:
        k = el[0]
        if k == 't': out.append(' '.join(show(tt(x)) for x in el[1:]) + ' .')
        elif k == 'group': out.append(show_group(el[1]))
        elif k == 'union': out.append(' UNION '.join(show_group(g) for g in el[1]))
        elif k == 'opt': out.append('OPTIONAL ' + show_group(el[1]))
        elif k == 'minus': out.append('MINUS ' + show_group(el[1]))
        elif k == 'sub': out.append('{ ' + show_sub(el[1]) + ' }')
        elif k == 'filter':
            out.append('FILTER (%s)' % show_expr(el[1]))
        elif k == 'bind': out.append('BIND(%s AS ?%s)' % (show_expr(el[1]), el[2]))
    return '{ ' + ind.join(out) + ' }'
