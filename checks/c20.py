import glob
import pbt, rdf
from common import *
import c01, history

NT = lambda t: "<%s> <%s> %s ." % (t[0], t[1], t[2])
X = "^^<%s" % XSD
# statements that are rejected as a whole, each with its own end of line; %s is a name
BAD = ["<%s> <p> .", "<%s> .", "<%s>", "\"s\" <p> <%s> .", "<%s> \"p\" <o> .", "<%s> _:p <o> .", "<%s> <p> <o> <g> <h> .", "<%s> <p> \"x\"@ .", "<%s> <p> \"x\"^^ .", "<%s> <p> \"x\"^^\"y\" .",
       "<a b> <p> <%s> .", "<%s> <p> nopre:x .", "<%s> nopre:p <o> .", "nopre:s <p> <%s> .", "<%s> <p> \"bad \\q escape\" .", "<%s> <p> \"\\u12G4\" .", "<%s> <p> \"\\U0000\" .", "<%s> <p> 'single' .",
       "<%s> <p> <o> , .", "<%s> <p> <o> , <o2> , nopre:x .", "<%s> <p> <o> ; <q> <o2> , .", "<%s> <p> ] .", "<%s> <p> [ <q> ] .", "<%s> <p> ( <a> .", "<%s> <p> [ <q> <r> , ] .", "@prefix x <http://%s> .", "@base \"%s\" .",
       "@foo <%s> .", "| %s .", "<%s> <p> \x00 .", "<%s> <p> = .", "<%s> <p> 12ab+ .", "<%s> <p> 1e .", "<%s> <p> + .", "5 <p> <%s> .", "<%s> 7 <o> .", "5. <p> <%s> .", "<%s> true <o> .", "true <p> <%s> .", "^ <p> <%s> .",
       "<%s> ^^ <o> .", "<%s> <p> _ .", "_:%s _:p _:o .", "; <%s> .", ", <%s> <p> .", ") <%s> <p> <o> .", "%s", "<%s> <p> \\u0041 .", "\x7f\x80\xff%s .", "<%s> <p> \"a\"\"b\" .", "<%s> <p> \"a\" \"b\" .", ". . %s .",
       "<%s> <p> \"x\"@@ .", "<%s> <p> <o> ; ; .", "<%s> a .", "a a a %s ."]
BAD = [b for b in BAD if b.endswith(".")]
# triples with a text that does not fit the datatype: only the triple itself is rejected
ILL = [L("abc", None, XSD + "integer"), L("", None, XSD + "integer"), L("99999999999999999999", None, XSD + "integer"), L("x", None, XSD + "double"), L("", None, XSD + "double"), L("NaN", None, XSD + "double"),
       L("nan", None, XSD + "float"), L("y", None, XSD + "float"), L("", None, XSD + "long"), L("-9223372036854775809", None, XSD + "long"), L("2147483648", None, XSD + "int"), L("z", None, XSD + "int"),
       L("99999999999999999999", None, XSD + "int"), L("32768", None, XSD + "short"), L("", None, XSD + "short"), L("99999999999999999999", None, XSD + "short"), L("128", None, XSD + "byte"), L("-129", None, XSD + "byte"),
       L("q", None, XSD + "byte"), L("99999999999999999999", None, XSD + "byte")]
GOODO = lambda r: r.choice([U("o%d" % r.randrange(4)), L("v%d" % r.randrange(4)), L("x y . \" \\", "en"), L("5", None, XSD + "integer"), L("1.5e3", None, XSD + "double"), L("", None, "dt"), U("_:b")])

class C20(pbt.Check):
    prop = "C20"
    title = "Malformed input is skipped: it loses nothing else and ends nothing"
    technique = "fuzzing of load files (structured malformed statements and byte mutations) against the statements known to be well-formed"
    rule = ("lines cases: a file mixes well-formed statements with malformed ones of 50 kinds, ill-typed literals, blank lines and comments; after building from it, adding it or removing it, the triples must be "
            "those of the well-formed statements, and parse_error.log must hold one line per rejected statement. bytes cases: a well-formed file is damaged (bytes changed, inserted, deleted, lines joined, "
            "truncated) or replaced by token soup; loading must end normally, keep every statement before the damage, and leave a database that still loads, answers consistently through every access path "
            "and takes further data. Non-trivial: at least one malformed and two well-formed statements; distinct by file.")
    quick = 2500; thorough = 60000
    timeout = 30
    def gen(self, r, i, tier):
        if r.random() < .6:
            good = [[U("s%d" % r.randrange(5)), U("p%d" % r.randrange(3)), GOODO(r)] for _ in range(r.choice([2, 3, 6, 6, 60]))]
            lines = [["g", t] for t in good]
            for _ in range(r.choice([1, 1, 2, 4, 8])):
                lines.insert(r.randrange(len(lines) + 1), ["i", [U("s%d" % r.randrange(5)), U("p0"), r.choice(ILL)]] if r.random() < .3 else ["b", r.choice(BAD) % ("n%d" % r.randrange(9) if r.random() < .95 else "n" * 3000)])
            return jl({"kind": "lines", "lines": lines, "how": r.choice(["build", "build", "add", "add", "remove"]), "crlf": r.random() < .1})
        case = c01.CHECK.gen(r, i, tier)
        edits = [[r.choice(["byte", "byte", "ins", "del", "cut", "dup", "tok"]), r.random(), r.randrange(256), r.randrange(1, 40)] for _ in range(r.choice([1, 1, 2, 3, 8]))]
        return jl({"kind": "bytes", "doc": case, "edits": edits, "how": case["how"]})
    def valid(self, case):
        try:
            if case["kind"] == "lines": return all(k == "b" and isinstance(x, str) or k in "gi" and valid_triple(x) for k, x in case["lines"]) and len(case["lines"]) > 0
            return c01.CHECK.valid(case["doc"]) and all(len(e) == 4 for e in case["edits"])
        except (TypeError, ValueError, KeyError): return False
    def load(self, ctx, how, data, base=[], suffix=".nt"):
        f = ctx.fresh() + suffix
        if how == "build":
            name = ctx.fresh(); ctx.write(f, data)
            x = ctx.driver().cmd("build", name, f)
            if x.get("exc"): raise Violation("building ended with an exception: %s\n%s" % (x["exc"], data[:1500]))
            if x.get("ok"): load_db(ctx, name)
            else: raise Violation("the build failed\n%s" % data[:1500])
        else:
            name = build_db(ctx, base); ctx.write(f, data)
            x = ctx.driver().cmd({"add": "binsert", "remove": "bremove"}[how], name, f)
            if x.get("exc"): raise Violation("%s ended with an exception: %s\n%s" % (how, x["exc"], data[:1500]))
        os.unlink(ctx.path(f))
        return name
    def run(self, ctx, case, rep):
        if case["kind"] == "lines": self.lines(ctx, case, rep)
        else: self.bytes(ctx, case, rep)
    def lines(self, ctx, case, rep):
        eol = "\r\n" if case["crlf"] else "\n"
        out = []; good = set(); bad = 0
        for k, x in case["lines"]:
            if k == "b": out.append(x); bad += 1
            else:
                t = tuple(tt(y) for y in x)
                out.append("%s %s %s ." % tuple(rdf.show(u) for u in t))
                if k == "g": good.add(t)
                else: bad += 1
        doc = eol.join(out) + eol
        keep = ("u", "keep"), ("u", "p0"), ("u", "k")
        base = [keep] + sorted(good, key=repr) if case["how"] == "remove" else [keep]
        doc8 = doc.encode("utf-8", "surrogateescape")
        name = self.load(ctx, case["how"], doc8, jl(base))
        got = set(dump(ctx, name))
        exp = good if case["how"] == "build" else {keep} if case["how"] == "remove" else good | {keep}
        if got != exp: raise Violation("%s: missing %s, unexpected %s\n%s" % (case["how"], fmt_rows(exp - got), fmt_rows(got - exp), doc[:1500]))
        if case["how"] != "remove":
            log = open(ctx.path(name + ".db", "parse_error.log"), "rb").read().split(b"\n")
            n = len([l for l in log if l.startswith(b"Line ")])
            if n != bad or len(log) - 1 != n + len([l for l in log if l.startswith(b"Info ")]): raise Violation("parse_error.log has %d lines for %d rejected statements\n%s\n%s" % (n, bad, log, doc[:1500]))
        rep.ev(); rep.label("lines", case["how"])
        if bad and len(good) > 1: rep.nontrivial(doc); rep.sample({"file": doc[:300]})
        close_db(ctx, name)
    def bytes(self, ctx, case, rep):
        import random
        d = case["doc"]
        st = c01.Style(random.Random(d["seed"]), d["ttl"])
        doc = bytearray(st.document(d["stmts"]).encode()); n0 = len(doc); first = n0
        for k, at, b, n in case["edits"]:
            at = int(at * len(doc))
            first = min(first, at)
            if k == "byte" and at < len(doc): doc[at] = b
            elif k == "ins": doc[at:at] = bytes([b]) * n
            elif k == "del": del doc[at:at + n]
            elif k == "cut": del doc[at:]
            elif k == "dup": doc[at:at] = doc[at:at + n * 10]
            elif k == "tok": doc[at:at] = [b"<", b">", b"\"", b"\"\"\"", b".", b";", b"[", b"]", b"(", b")", b"@prefix", b"^^", b"_:", b"\\u", b"#", b"1e", b"\n", b"@", b"true"][b % 19]
        doc = bytes(doc)
        keep = ("u", "keep"), ("u", "p0"), ("u", "k")
        name = self.load(ctx, case["how"], doc, jl([keep]), ".ttl")
        got = dump(ctx, name)
        if len(set(got)) != len(got) and b"\0" not in doc: raise Violation("a triple is stored twice\n%r" % doc[:1500])
        if case["how"] == "add" and keep not in got: raise Violation("adding a damaged file lost a triple\n%r" % doc[:1500])
        # what stands before the damage, for files whose statements are lines
        if not d["ttl"]:
            whole = doc[:first].rfind(b"\n") + 1
            n = doc[:whole].count(b" .") if False else doc[:whole].count(b"\n")
            flat = [(s, p, o) for s, po in d["stmts"] for p, os_ in po for o in os_]
            exp = set()
            text = doc[:whole].decode().split("\n")[:-1]
            text = [l for l in text if l.strip() and not l.startswith("#")]
            term = lambda t: ("u", "_:" + t[1]) if t[0] == "b" else tuple(t)
            if not any("\n" in str(t[1]) for s, p, o in flat for t in (s, o)) and "\n" not in "".join(p for s, p, o in flat):
                exp = {(term(s), ("u", p), term(o)) for s, p, o in flat[:len(text)]}
            if not exp <= set(got): raise Violation("statements before the damage are lost: %s\n%r" % (fmt_rows(exp - set(got)), doc[:1500]))
        more = [[U("m1"), U("p0"), U("m2")], [U("m1"), U("p1"), L("lit")]]
        f = ctx.fresh() + ".nt"; ctx.write(f, "".join("%s %s %s .\n" % tuple(rdf.show(tt(x)) for x in t) for t in more))
        ctx.driver().cmd("binsert", name, f); os.unlink(ctx.path(f))
        new = set(dump(ctx, name))
        if new != set(got) | {tuple(tt(y) for y in t) for t in more}: raise Violation("after the damaged file, adding another gives: missing %s, unexpected %s\n%r" % (fmt_rows((set(got) | {tuple(tt(y) for y in t) for t in more}) - new), fmt_rows(new - set(got)), doc[:1500]))
        ctx.driver().cmd("save", name); close_db(ctx, name, False); load_db(ctx, name)
        again = set(dump(ctx, name))
        if again != new: raise Violation("after reopening: missing %s, unexpected %s\n%r" % (fmt_rows(new - again), fmt_rows(again - new), doc[:1500]))
        g = rdf.Graph(again)
        plain = lambda t: all(x is None or x and all(ord(c) > 31 and not 0xDC00 <= ord(c) < 0xE000 and c not in "\\<>\" `^{}|" for c in x) for u in t for x in u[1:])
        for k, t in enumerate(sorted(filter(plain, again), key=repr)[:0 if b"\0" in doc else 7]):      # names with NUL bytes show cut at them
            text, sel, pat = history.shape_queries(*t)[(k + case["edits"][0][2]) % 7]
            rows = rows_or_violation(ctx.driver().cmd("qm", name, text)["rs"][0], text, sel)
            compare(rows, history.shape_expect(g, sel, pat), text)
        rep.ev(); rep.label("bytes", case["how"])
        if len(got) > 2: rep.nontrivial(doc.hex()); rep.sample({"damaged": repr(doc[:200])})
        close_db(ctx, name)
CHECK = C20()
