from history import *
class C04(HistoryCheck):
    prop = "C04"
    title = "Every access path sees the same triples, after any update history"
    technique = "stateful property-based testing, all access shapes against a set model"
    rule = ("a case builds a database (0-14 triples, or 200-3000 with hubs), applies a history of SPARQL and file updates with reopens, then asks every access "
            "shape (each subset of subject/predicate/object left variable, and ASK for the full triple) around up to 12 stored triples, up to 6 removed ones and some mixtures; every "
            "answer is compared with the set. Non-trivial: a probe shape whose answer is not empty after a history that removed and added; distinct by (history, query).")
    quick = 1500; thorough = 30000
    W = {"ins": 5, "del": 5, "fins": 2, "fdel": 2, "delw": 1, "mod": 1, "reopen": 2}
    WB = {"fins": 4, "fdel": 4, "ins": 2, "del": 2, "reopen": 2}
    timeout = 60
    def gen(self, r, i, tier):
        if i % 500 == 57: c = gen_huge(r)
        elif i % 20 == 19: c = gen_bulk(r, self.WB, r.randrange(1, 5))
        else: c = gen_history(r, self.W, r.randrange(1, 14))
        c["pick"] = r.randrange(1 << 30)
        return c
    def op_domain(self, o):
        if o[0] == 'delw': return upd_ok(o[1])
        if o[0] == 'mod': return upd_ok([t for t in o[3] if t[0] == 't'])
        return True
    def run(self, ctx, case, rep):
        import random
        self.start(ctx, case)
        everseen = set(self.m.s); rem = add = 0
        for op in case["ops"]:
            nd, ni = self.do(op, rep); rem += nd; add += ni; everseen |= self.m.s
        r = random.Random(case["pick"])
        cur = sorted(self.m.s, key=repr); gone = sorted(everseen - self.m.s, key=repr)
        pick = r.sample(cur, min(len(cur), 12)) + r.sample(gone, min(len(gone), 6))
        allt = cur + gone
        for _ in range(4):
            if allt: pick.append((r.choice(allt)[0], r.choice(allt)[1], r.choice(allt)[2]))
        g = rdf.Graph(self.m.s)
        qs = []
        for t in pick: qs += shape_queries(*t)
        qs = list({q[0]: q for q in qs}.values())
        asks = ["ASK WHERE { %s %s %s . }" % tuple(map(rdf.show, t)) for t in pick]
        rs = ctx.driver().cmd("qm", self.name, *([q[0] for q in qs] + asks))["rs"]
        for (text, sel, pat), x in zip(qs, rs):
            exp = shape_expect(g, sel, pat)
            compare(rows_or_violation(x, text, sel), exp, text)
            rep.ev(); rep.label("shape " + "".join("?" if x[0] == 'v' else "c" for x in pat) + (" empty" if not exp else ""))
            if exp and rem and add:
                rep.nontrivial([case["init"], case["ops"], text])
                rep.sample({"ops": [[o[0]] + [len(x) if isinstance(x, list) else x for x in o[1:]] for o in case["ops"]], "query": text[:200], "answers": len(exp)})
        for t, text, x in zip(pick, asks, rs[len(qs):]):
            got = rows_or_violation(x, text, ["_askResult"])
            want = "true" if t in self.m.s else "false"
            if len(got) != 1 or got[0][0][1] != want: raise Violation("%s answered %s, expected %s" % (text, got, want))
            rep.ev(); rep.label("shape ccc " + want)
        self.finish()
CHECK = C04()
