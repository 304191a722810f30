import re, random
from history import *
import c05, c06, c07, c08, c09, c10
SRC = [c05.CHECK, c06.CHECK, c07.CHECK, c08.CHECK, c09.CHECK, c10.CHECK]
TOKEN = re.compile(r'<[^<>"{}|^`\\\s]*>|"(?:[^"\\\n]|\\.)*"(?:@[A-Za-z]+(?:-[A-Za-z0-9]+)*|\^\^(?:<[^>]*>|\w*:\w*))?|\?\w+|\w+:\w*|[A-Za-z_]\w*|\d+(?:\.\d+)?|&&|\|\||!=|<=|>=|\S')
KEYS = set("SELECT ASK WHERE FILTER OPTIONAL UNION MINUS BIND AS DISTINCT ORDER BY GROUP LIMIT OFFSET ASC DESC INSERT DELETE DATA PREFIX BASE COUNT SUM AVG MIN MAX SAMPLE "
           "GROUP_CONCAT BOUND STR LANG DATATYPE REGEX CONTAINS STRSTARTS STRENDS STRLEN UCASE LCASE CONCAT IF COALESCE ISIRI ISURI ISLITERAL ISNUMERIC ISBLANK SAMETERM LANGMATCHES ABS SUBSTR".split())
SPACE = [" ", "  ", "\n", "\t", "\r\n", " \n ", "# a comment\n", " #} \" ' { <\n", "\t# x # y\n\n"]

def tokens(t):
    out, pos = [], 0
    while pos < len(t):
        m = TOKEN.search(t, pos)
        if not m: break
        out.append(m[0]); pos = m.end()
    return out

def joined(ts):
    """INSERT DATA, DELETE DATA and DELETE WHERE stay one token: see known_findings.txt (C19-twowords)."""
    out = []
    for t in ts:
        if out and (out[-1].upper(), t.upper()) in (("INSERT", "DATA"), ("DELETE", "DATA"), ("DELETE", "WHERE")): out[-1] += " " + t
        else: out.append(t)
    return out

def relayout(r, ts, case=True):
    """The same tokens with other white space, comments and keyword case."""
    out = r.choice(["", "", " ", "\n", "# c\n"])
    ts = joined(ts)
    for i, t in enumerate(ts):
        if case and t.split()[0].upper() in KEYS and r.random() < .5: t = r.choice([t.lower(), t.upper(), t.capitalize()])
        out += t
        if i + 1 < len(ts): out += r.choice(SPACE) if r.random() < .4 else " "
    return out + r.choice(["", "", " ", "\n", " # end", "\n# end\n"])

def breakage(r, ts):
    """A text that no reading of the grammar accepts."""
    depth, last = 0, 0
    for i, t in enumerate(ts):
        depth += (t == '{') - (t == '}')
    k = r.randrange(9)
    braces = [i for i, t in enumerate(ts) if t in '{}' and t]
    if k == 0:      # cut off inside the outermost group
        a, b = braces[0] + 1, braces[-1]
        return " ".join(ts[:r.randrange(a, b + 1)])
    if k == 1: return " ".join(ts) + r.choice([" }", " )", " {", " {}", " SELECT", " WHERE", " . .", " \"", " <", " <a> <b>"])
    if k == 2: i = r.choice(braces); return " ".join(ts[:i] + ts[i + 1:])
    if k == 3: i = r.randrange(len(ts)); return " ".join(ts[:i] + [r.choice(["\"open", "\"a\nb\"", "\u00a4", "^^^", "@@", "|", "&", "}}", "\\", "<a b>", "'", "?", "{ {"])] + ts[i:]) if i else "\u00a4 " + " ".join(ts)
    if k == 4: return " ".join(ts[1:]) if ts[0] not in ("PREFIX",) else " ".join(ts[2:])
    if k == 5: i = r.choice([i for i, t in enumerate(ts) if t == '{']); return " ".join(ts[:i + 1] + ["<s>", "nope:p", "<o>", "."] + ts[i + 1:])
    if k == 6: i = r.choice([i for i, t in enumerate(ts) if t == '{']); return " ".join(ts[:i + 1] + r.choice([["<s>", "<p>", "."], ["<s>", "\"l\"", "<o>", "."], ["<s>", "<p>", "<o>", "<x>", "."], ["FILTER", "."], ["OPTIONAL", "."], ["UNION", "{", "}"]]) + ts[i + 1:])
    if k == 7: return r.choice([";", "{}", "{ }", ".", "SELECT", "ASK", "SELECT *", "SELECT ?x", "INSERT DATA", "DELETE WHERE", "ASK {", "null", "0", "drop"])
    return " ".join(ts).replace("{", "[", 1)

def noise(r, text):
    """Anything: tokens and bytes moved, doubled, dropped and replaced."""
    b = bytearray(text.encode())
    for _ in range(r.choice([1, 1, 2, 3, 8, 30])):
        i = r.randrange(len(b) + 1); x = r.random()
        if x < .25: del b[i:i + r.choice([1, 1, 2, 5, 20])]
        elif x < .5: b[i:i] = r.choice([b"{", b"}", b"(", b")", b"<", b">", b'"', b"?", b".", b";", b",", b"\\", b"^^", b"@", b"*", b"+", b"/", b"|", b"!", b"=", b"_:b", b"a", b"0", b"-1", b"1e9", b"99999999999999999999",
                                        b"\xc3\xa9", b"\n", b"\r", b"#", b"[]", b"()", b"%", b"FILTER", b"OPTIONAL", b"UNION", b"SELECT", b"LIMIT 0", b"OFFSET", b"GROUP BY", b"BIND", b"MINUS", b"VALUES", b"SERVICE", b"GRAPH", b"EXISTS", b"CONSTRUCT"])
        elif x < .6 and b: b[i % len(b)] = r.choice(b"abcXYZ019 <>{}()\"'?:.;,*+-/=!&|^@#%$~`[]\\\t")
        elif x < .8: j = r.randrange(len(b) + 1); c = bytes(b[min(i, j):max(i, j)][:60]); k = r.randrange(len(b) + 1); b[k:k] = c
        elif x < .93:
            ts = tokens(b.decode("utf-8", "replace"))
            if len(ts) > 1:
                i, j = r.randrange(len(ts)), r.randrange(len(ts)); ts[i], ts[j] = ts[j], ts[i]; b = bytearray(" ".join(ts).encode())
        else: b = b[:i]
    return b.decode("utf-8", "replace").replace("\0", "")

def repeated(t):
    """May a triple pattern of this text name a variable twice? (known finding C05-self)"""
    for seg in re.split(r'[.{}]', t):
        v = re.findall(r'[?$]\w+', seg)
        if len(set(v)) < len(v): return True
    return False

def nested(r):
    n = r.choice([2, 10, 40, 100]); k = r.randrange(5)
    if k == 0: return "SELECT ?s WHERE " + "{ " * n + "?s <p> ?o . " + "} " * n
    if k == 1: return "SELECT ?s WHERE { ?s <p> ?o . FILTER(" + "(" * n + "?s = ?s" + ")" * n + ") }"
    if k == 2: return "SELECT ?s WHERE { ?s <p> ?o . FILTER(" + "!" * n + "(?s = ?o)) }"
    if k == 3: return "SELECT ?s WHERE { " + "?s <p> ?o . OPTIONAL { " * min(n, 40) + "} " * min(n, 40) + "}"
    return "ASK { " + " UNION ".join(["{ ?s <p> ?o }"] * n) + " }"

VALID = HistoryCheck()

class C19(pbt.Check):
    prop = "C19"
    title = "A request text is read as the grammar says or refused without any effect"
    technique = "grammar-based mutation fuzzing with a metamorphic relation, rejection oracles and a set model"
    rule = ("a case is a small graph and up to 12 request texts made from generated queries and updates: the same tokens in another layout (white space, comments, keyword case), which must give the "
            "same answer; texts broken so that no reading of the grammar accepts them (cut off inside a group, unbalanced, illegal or missing tokens, undeclared prefixes, terms where none may stand), which must be refused; "
            "and noise (bytes and tokens dropped, doubled, moved, replaced), which may be answered or refused. After every text that is not a valid update the contents are unchanged, a known query is answered as "
            "before, and the process lives and answers in time. Non-trivial: at least one relayout answered with solutions and one refusal; distinct by case.")
    quick = 2000; thorough = 60000
    timeout = 40
    asan = True
    def gen(self, r, i, tier):
        C = SRC[i % len(SRC)]
        c = C.gen(r, (i // len(SRC)) * 2, tier)
        g = c["graph"][:400]
        items = []
        texts = [q_text(q) for q in c["qs"][:4]] if isinstance(c.get("qs"), list) else []
        m = Model(g); p = Pool(r); ops = {}
        for k in ("ins", "del", "delw", "mod"):
            o = gen_op(r, k, p, m, 3)
            if o and r.random() < .6: o = jl(o); t = Model(m.s).apply(o)[0]; texts.append(t); ops[t] = o
        texts += ["SELECT ?s ?p ?o WHERE { ?s ?p ?o . }"]
        for _ in range(r.randrange(4, 13)):
            t = r.choice(texts); ts = tokens(t)
            x = r.random()
            if x < .35: items.append(["same", t, relayout(r, ts)] if t not in ops else ["upd", ops[t], relayout(r, ts)])
            elif x < .65: items.append(["bad", breakage(r, ts)])
            elif x < .93:
                n = noise(r, t)
                if not repeated(n): items.append(["noise", n])
            else: items.append(["nest", nested(r)])
        return jl({"graph": g, "items": items})
    def valid(self, case):
        return valid_graph(case["graph"]) and isinstance(case["items"], list) and all(isinstance(x, list) and len(x) in (2, 3) and isinstance(x[-1], str) and (len(x) == 2 or self.twin(x)) for x in case["items"])
    def twin(self, x):
        if x[0] != "upd": return isinstance(x[1], str) and [t.upper() for t in tokens(x[1])] == [t.upper() for t in tokens(re.sub(r'''("(?:[^"\\\n]|\\.)*"|<[^<>\s]*>)|#[^\n]*''', lambda m: m[1] or "", x[2]))]
        return VALID.valid_op(x[1]) and self.twin(["same", Model([]).apply(x[1])[0], x[2]])
    def shrinkable(self, path): return True
    def run(self, ctx, case, rep):
        name = build_db(ctx, case["graph"])
        D = lambda: ctx.driver()
        cur = collections.Counter(dump(ctx, name))
        ok = ref = False
        for it in case["items"]:
            k, t = it[0], it[-1]
            if k == "same" :
                a = D().cmd("qm", name, it[1])["rs"][0]
            x = D().cmd("q", name, t, "1")["r"]
            rep.ev(); rep.label(k)
            refused = bool(x.get("exc")) or x["ret"] in (-101, -1)
            if k == "same":
                if a.get("exc") or a["ret"] != OK: continue       # not this property's business
                if refused or x["ret"] != OK: raise Violation("the text is refused (ret %s, %s) in another layout:\n%s\n---- answered as\n%s" % (x["ret"], x.get("exc"), t, it[1]))
                if not re.search(r"\b(LIMIT|OFFSET|SAMPLE)\b", it[1]):
                    ra, rb = rdf.rows_of(a["body"]), rdf.rows_of(x["body"])
                    if ra[0] != rb[0] or collections.Counter(ra[1]) != collections.Counter(rb[1]):
                        if not (sorted(ra[0]) == sorted(rb[0]) and "*" in it[1]): raise Violation("another layout of the same text gives another answer:\n%s\n---- %d rows, as\n%s\n---- %d rows" % (t, len(rb[1]), it[1], len(ra[1])))
                    ok |= len(ra[1]) > 0
            elif k == "bad":
                if not refused: raise Violation("a text outside the grammar was answered (ret %s): %s" % (x["ret"], t))
                ref = True
            now = collections.Counter(dump(ctx, name))
            if k in ("same", "bad", "nest") and now != cur: raise Violation("a %s changed the contents: %s" % ("query" if k != "bad" else "refused text", t))
            if k == "noise" and now != cur and (refused or not re.search("insert|delete|load|clear|drop|create", t, re.I)):
                raise Violation("a text that is no update, or was refused, changed the contents: %s" % t)
            if k == "upd":
                mm = Model(cur); text = mm.apply(it[1])[0]
                if refused: raise Violation("the update is refused (ret %s, %s) in another layout:\n%s\n---- of\n%s" % (x["ret"], x.get("exc"), t, text))
                compare(list(now.elements()), list(mm.s), "contents after %s, another layout of %s" % (t, text))
            cur = now
        close_db(ctx, name)
        if ok and ref: rep.nontrivial(case); rep.sample({"graph": len(case["graph"]), "texts": [[x[0], x[-1][:120]] for x in case["items"][:4]]})
CHECK = C19()
