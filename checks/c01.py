import collections, re
import pbt, rdf
from common import *

RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
NS = ["http://ex.org/", "http://ex.org/voc#", "urn:a:", "http://\u00e9.org/\u65e5/", "file:///x/y/"]
LOCAL = ["a", "b", "c1", "x_y", "9z", "42", "p-q", "true", "Z", "_u", "k\u00e9"]
CH = ["a", "b", "Z", "0", " ", "'", "`", "<", ">", "{", "}", "^^", "@en", ".", ";", ",", "#", "?x", "%", "&", "$", "_:b", "\\", "\"", "\n", "\t", "\r", "\u00e9", "\u65e5\u672c", "\U0001F600", "\u007f", "\u00a0", "\u2028", "\u0080", "\u07ff", "\u0800", "\uffff", "\U00010000", "\U0010fffd",
      "\b", "\f", "\x01", "[", "]", "(", ")", "\"\"", "\\n", "\\u0041"]
NUM = {"integer": ["0", "5", "-7", "+3", "007", "9223372036854775807", "-9223372036854775808"],
       "decimal": ["1.5", "-0.5", ".5", "+2.0", "1.", "123456789.987654321"],
       "double": ["1e5", "1.5E-3", "-.5e2", "1E+2", "0e0", "1e300", "1e-300", "1e400", "4e-320"],
       "float": ["1.5", "1e10", "1e39", "1e-45", "-0", "INF"], "long": ["12", "-3"], "int": ["12", "-2147483648"], "short": ["-32768"], "byte": ["127"],
       "boolean": ["true", "false"], "string": ["s"], "dateTime": ["2020-01-02T03:04:05", "2020-01-02T03:04:05Z"], "date": ["2020-01-02"]}
LANGS = ["en", "de", "en-US", "zh-Hans-CN", "x"]

def text_of(r): return "".join(r.choice(CH) for _ in range(r.choice([0, 1, 1, 2, 3, 6, 30])))

def gen_iri(r):
    x = r.random()
    if x < .15: return U(r.choice(["a", "e1", "x/y", "#f", "k\u00e9"]))
    s = r.choice(NS) + r.choice(LOCAL)
    if r.random() < .25: s += r.choice(["?q=1&r=2", "#f", "/x.y", "%20", "(1)", "'", ";,", "\U0001F600", "~!$*+=@", ":", ".", "-"])
    return U(s)
def gen_lit(r):
    x = r.random()
    if x < .5: return L(text_of(r))
    if x < .65: return L(text_of(r), r.choice(LANGS))
    if x < .9:
        k = r.choice(list(NUM)); return L(r.choice(NUM[k]), None, XSD + k)
    return L(text_of(r), None, r.choice(["http://ex.org/dt", "urn:t#a", "http://\u00e9.org/dt", "dt"]))

# ---------------------------------------------------------------- writing Turtle
class Style:
    """How a case is written down; every choice comes from the case's own random stream, so it replays."""
    def __init__(self, r, ttl):
        self.r, self.ttl = r, ttl
        self.eol = r.choice(["\n"] * 4 + ["\r\n"])
        self.esc = r.choice([0, 0, .3, 1])
        self.pre = {}
        self.base = None
    def ws(self, must=True):
        r = self.r
        if not self.ttl: return " " if r.random() < .8 else r.choice(["\t", "  ", " \t "])
        return r.choice([" "] * 6 + ["\t", "  ", self.eol, self.eol + "  ", " # note ; . <x>" + self.eol]) if must or r.random() < .5 else ""
    def chars(self, s, quote, long=False):
        o = []
        for i, c in enumerate(s):
            n = ord(c)
            if c in '"\\': o.append(c if long and c == '"' and s[i:i + 3] != '"""' and i + 1 < len(s) and s[i - 1:i] != '"' and s[i + 1] != '"' else '\\' + c if self.r.random() < .9 else "\\u%04X" % n)
            elif c in "\n\r\t": o.append(c if long and self.r.random() < .6 and c != "\r" else {"\n": "\\n", "\r": "\\r", "\t": "\\t"}[c] if c != "\t" or self.r.random() < .7 else c)
            elif c in "\b\f" and self.r.random() < .5: o.append({"\b": "\\b", "\f": "\\f"}[c])
            elif c == "'" and self.r.random() < .3: o.append("\\'")
            elif self.r.random() < self.esc * (.5 if n < 128 else 1): o.append("\\u%04X" % n if n < 0x10000 and self.r.random() < .8 else "\\U%08X" % n)
            else: o.append(c)
        return "".join(o)
    def iri(self, s):
        o = "".join(("\\u%04X" % ord(c) if ord(c) < 0x10000 else "\\U%08X" % ord(c)) if ord(c) > 127 and self.r.random() < self.esc else c for c in s)
        return "<%s>" % o
    def uri(self, s):
        r = self.r
        if self.ttl:
            for ns in NS:
                loc = s[len(ns):]
                if s.startswith(ns) and loc in LOCAL and loc.isascii() and ns in self.pre and r.random() < .6: return self.pre[ns] + ":" + loc
        if self.base and s.startswith(self.base) and r.random() < .5 and s[len(self.base):][:1].isalnum() and ":" not in s[len(self.base):]: return self.iri(s[len(self.base):])
        return self.iri(s)
    def lit(self, t):
        r = self.r; lex, lang, dt = t[1:]
        if self.ttl and dt and r.random() < .6:
            k = dt[len(XSD):] if dt.startswith(XSD) else None
            if k in ("integer", "decimal", "double", "boolean") and not lex.endswith("."): return lex
        if self.ttl and r.random() < .2: s = '"""%s"""' % self.chars(lex, '"', True)
        else: s = '"%s"' % self.chars(lex, '"')
        if lang: return s + "@" + lang
        if dt:
            if self.ttl and dt.startswith(XSD) and XSD in self.pre and r.random() < .5: return s + "^^" + self.pre[XSD] + ":" + dt[len(XSD):]
            return s + "^^" + self.iri(dt)
        return s
    def node(self, n, subj=False):
        k = n[0]
        if k == 'u': return self.uri(n[1])
        if k == 'b': return "_:" + n[1]
        if k == 'l': return self.lit(n)
        if k == 'a':        # anonymous: [ p o ; p o ]
            return "[" + self.ws(False) + (self.po(n[1]) + self.ws() if n[1] else "") + "]"
        return "(" + "".join(self.ws() + self.node(x) for x in n[1]) + self.ws(False) + ")"       # collection
    def pred(self, p):
        if self.ttl and p == RDF + "type" and self.r.random() < .7: return "a"
        return self.uri(p)
    def po(self, pos):
        """[[predicate, [object...]]...]"""
        out = []
        for p, os_ in pos:
            out.append(self.pred(p) + self.ws() + (self.ws(False) + "," + self.ws(False)).join(self.node(o) for o in os_))
        return (self.ws() + ";" + self.ws(False)).join(out) + (self.ws(False) + ";" if self.r.random() < .05 else "")
    def relative(self, s):
        return s[len(self.base):] if self.base and s.startswith(self.base) and len(s) > len(self.base) and self.r.random() < .5 else s
    def prefix(self, ns):
        r = self.r
        n = r.choice(["", "p", "q-1", "x2", "a", "true", "X_y"])
        for k in [k for k, v in self.pre.items() if v == n]: del self.pre[k]
        self.pre[ns] = n
        return "@prefix " + n + ":" + self.ws(False) + self.iri(self.relative(ns)) + self.ws(False) + "." + self.eol
    def newbase(self):
        b = self.r.choice([NS[0], "file:///x/y/", "http://ex.org/x/"])
        out = "@base %s .%s" % (self.iri(self.relative(b)), self.eol)
        self.base = b
        return out
    def document(self, stmts):
        r = self.r; out = ""
        if self.ttl:
            if r.random() < .2: out += self.newbase()
            for ns in r.sample(NS + [XSD], r.randrange(5)): out += self.prefix(ns)
            if r.random() < .2: out += self.newbase()
        self.bases = []
        for s, pos in stmts:
            if self.ttl and r.random() < .05: out += self.prefix(r.choice(NS))
            if self.ttl and r.random() < .03: out += self.newbase()
            self.bases.append(self.base)
            if r.random() < .1: out += "# a comment: <x> \"y\" ." + self.eol
            if r.random() < .05: out += self.eol
            if self.ttl: out += self.node(s, True) + self.ws() + self.po(pos) + self.ws() + "." + self.eol
            else:
                for p, os_ in pos:
                    for o in os_: out += self.node(s) + self.ws() + self.iri(p) + self.ws() + self.node(o) + self.ws() + "." + self.eol
        if out.endswith(self.eol) and r.random() < .3: out = out[:-len(self.eol)]
        pad = -len(out.encode()) % 1024
        if pad > 2 and r.random() < .1: out += self.eol[-1] +  "#" + "." * (pad - 2)
        return out

# ---------------------------------------------------------------- what the document says
def triples_of(stmts, bases):
    """The triples of a document; anonymous nodes become ('anon', description) and are compared by what is said about them."""
    out = []; base = None
    def base_fix(s): return s if not base or re.match("[A-Za-z][A-Za-z0-9+.-]*:", s) else base + s
    def uniq(pos): return tuple(sorted({x for x in pos if x[1][0] != 'anon'}, key=repr) + sorted((x for x in pos if x[1][0] == 'anon'), key=repr))
    def desc(n):
        if n[0] == 'u': return ('u', base_fix(n[1]))
        if n[0] == 'l': return ('l', n[1], n[2], base_fix(n[3]) if n[3] else None)
        if n[0] == 'b': return ('u', "_:" + n[1])
        if n[0] == 'a':
            d = ('anon', uniq([(base_fix(p), desc(o)) for p, os_ in n[1] for o in os_]))
        elif not n[1]: return ('u', RDF + "nil")
        else:
            d = ('u', RDF + "nil")
            for x in reversed(n[1]): d = ('anon', uniq([(RDF + "first", desc(x)), (RDF + "rest", d)]))
        return d
    for (s, pos), base in zip(stmts, bases):
        sd = desc(s) if s[0] in 'ub' else None
        for p, os_ in pos:
            for o in os_: out.append((sd, base_fix(p), desc(o)) if sd else None)
        if sd is None:      # an anonymous subject: what it has inside its brackets and outside
            ins = [(base_fix(p), desc(o)) for p, os_ in pos for o in os_]
            d = desc(s)
            out = [x for x in out if x]
            out.append(('root', uniq(list(d[1]) + ins)) if d[0] == 'anon' else None)
            if d[0] != 'anon': out.pop(); out += [(d, p, o) for p, o in ins]
    return out

def canon(ts):
    """Stored triples with the generated blank nodes (_:_N) replaced by descriptions of the trees they root."""
    po = collections.defaultdict(list); used = set()
    gen = lambda t: t[0] == 'u' and t[1].startswith("_:_") and t[1][3:].isdigit()
    for s, p, o in ts:
        if gen(s): po[s].append((p[1], o))
        if gen(o): used.add(o)
    def desc(t, seen=()):
        if not gen(t): return t
        if t in seen: raise Violation("a blank node of the document became its own ancestor")
        d = [(p, desc(o, seen + (t,))) for p, o in po.get(t, ())]
        return ('anon', tuple(sorted({x for x in d if x[1][0] != 'anon'}, key=repr) + sorted((x for x in d if x[1][0] == 'anon'), key=repr)))
    out = []
    for s, p, o in ts:
        if not gen(s): out.append((s, p[1], desc(o)))
    for s in po:
        if s not in used: out.append(('root', desc(s)[1]))
    return out

class C01(pbt.Check):
    prop = "C01"
    title = "Loading N-Triples or Turtle stores exactly the triples of the document"
    technique = "property-based testing of a document generator against the triples it wrote down"
    rule = ("a case is a set of statements written as N-Triples or Turtle in a random style (prefixes, base, a, ';' and ',', anonymous nodes, collections, number and boolean shorthand, "
            "long strings, escapes, comments, white space, CRLF, no final newline, documents longer than the reader's buffer) and loaded by building a database from the file or by "
            "adding the file to one; the stored triples are compared with those written down, anonymous nodes by what is said about them. Non-trivial: at least three triples and one "
            "of escapes, non-ASCII text, datatypes or Turtle abbreviations; distinct by document.")
    quick = 2500; thorough = 80000
    timeout = 30
    def gen(self, r, i, tier):
        ttl = r.random() < .6
        n = r.choice([1, 2, 3, 5, 8, 8, 40])
        ents = [gen_iri(r) for _ in range(5)] + [['b', x] for x in ("b1", "x", "n0a")]
        preds = [gen_iri(r)[1] for _ in range(3)] + [RDF + "type"]
        def obj(d):
            x = r.random()
            if x < .4: return list(r.choice(ents))
            if ttl and d < 3 and x < .5: return ['a', po(d + 1) if r.random() < .85 else []]
            if ttl and d < 3 and x < .57: return ['c', [obj(d + 1) for _ in range(r.choice([0, 1, 2, 3]))]]
            return list(gen_lit(r))
        def po(d): return [[r.choice(preds), [obj(d) for _ in range(r.choice([1, 1, 1, 2, 3]))]] for _ in range(r.choice([1, 1, 2, 3]))]
        stmts = []
        for _ in range(n):
            x = r.random()
            s = ['a', po(1) if r.random() < .5 else []] if ttl and x < .06 else list(r.choice(ents))
            stmts.append([s, po(0)])
        return jl({"ttl": ttl, "stmts": stmts, "seed": r.randrange(1 << 30), "how": r.choice(["build", "build", "build", "add"])})
    def valid(self, case):
        def ok(n, d=0):
            if n[0] == 'a': return case["ttl"] and okpo(n[1])
            if n[0] == 'c': return case["ttl"] and all(ok(x) for x in n[1])
            return n[0] == 'b' and len(n) == 2 and n[1] in ("b1", "x", "n0a") or n[0] != 'b' and is_term(n) and (n[0] != 'l' or self.lit_ok(n))
        def okpo(po): return isinstance(po, list) and all(isinstance(p, str) and p and os_ and all(ok(o) for o in os_) for p, os_ in po)
        try: return bool(case["stmts"]) and all(s[0] in 'uba' and ok(s) and po and okpo(po) for s, po in case["stmts"])
        except (TypeError, ValueError, IndexError, KeyError): return False
    def lit_ok(self, n):
        k = n[3][len(XSD):] if n[3] and n[3].startswith(XSD) else None
        return k not in NUM or k == "string" or n[1] in NUM[k]
    def run(self, ctx, case, rep):
        import random
        st = Style(random.Random(case["seed"]), case["ttl"])
        doc = st.document(case["stmts"])
        exp = triples_of(case["stmts"], st.bases)
        exp = [x for x in exp if x]
        f = ctx.fresh() + (".ttl" if case["ttl"] else ".nt")
        if case["how"] == "build":
            name = ctx.fresh()
            ctx.write(f, doc)
            x = ctx.driver().cmd("build", name, f)
            if not x.get("ok"): raise Violation("building from the document failed: %s\n%s" % (x, doc[:2000]))
            load_db(ctx, name)
        else:
            name = build_db(ctx, [])
            ctx.write(f, doc)
            x = ctx.driver().cmd("binsert", name, f)
            if x.get("exc"): raise Violation("adding the document failed: %s\n%s" % (x, doc[:2000]))
        os.unlink(ctx.path(f))
        got = dump(ctx, name)
        a, b = collections.Counter(canon(got)), collections.Counter(exp)
        roots = lambda c: {k: v for k, v in c.items() if k[0] == 'root'}
        ga, gb = {k for k in a if k[0] != 'root'}, {k for k in b if k[0] != 'root'}
        if len(got) != len(set(got)): raise Violation("a triple is stored twice\n%s" % doc[:2000])
        if ga != gb or roots(a) != roots(b):
            miss = list(gb - ga) + [k for k in b if k[0] == 'root' and b[k] > a[k]]; extra = list(ga - gb) + [k for k in a if k[0] == 'root' and a[k] > b[k]]
            raise Violation("the stored triples differ from those of the document\n  missing: %s\n  unexpected: %s\n%s" % (str(miss[:3])[:900], str(extra[:3])[:900], doc[:1500]))
        rep.ev()
        rep.label("Turtle" if case["ttl"] else "N-Triples"); rep.label(case["how"])
        if len(doc) > 1024: rep.label("longer than the buffer")
        if len(exp) >= 3 and (case["ttl"] or "\\" in doc or not doc.isascii() or "^^" in doc):
            rep.nontrivial(doc); rep.sample({"document": doc[:400], "triples": len(exp)})
        close_db(ctx, name)
CHECK = C01()
