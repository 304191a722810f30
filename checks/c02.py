from history import *
class C02(HistoryCheck):
    prop = "C02"
    title = "SPARQL updates change the stored triple set exactly as written"
    technique = "stateful property-based testing against a set model"
    rule = ("a case builds a random database (possibly empty) and applies 1-14 (some 40) random updates - INSERT DATA, DELETE DATA, DELETE WHERE, DELETE/INSERT WHERE "
            "with and without FILTER - over a small pool of names and literals, including present and absent triples, duplicates, self-loops, new and vanishing "
            "names, removal of everything; after every update the whole contents are read back and compared with the set, and the reported number of changed triples is compared for "
            "pure insertions and deletions. Non-trivial: an update that really removes a triple and later one that really adds one; distinct by case.")
    quick = 2600; thorough = 60000
    W = {"ins": 5, "del": 5, "delw": 2, "mod": 4}
    def gen(self, r, i, tier):
        if i % 40 == 39: return gen_history(r, self.W, 40, Pool(r, 12, 4, 10))
        return gen_history(r, self.W, r.randrange(1, 15))
    def op_domain(self, o):
        if o[0] == 'delw': return upd_ok(o[1])
        if o[0] == 'mod': return upd_ok([t for t in o[3] if t[0] == 't'])
        return True
    def after_update(self, op, text, x, nd, ni):
        HistoryCheck.after_update(self, op, text, x, nd, ni)
        if op[0] != 'mod' or not (op[1] and op[2]):
            if x["ret"] != nd + ni: raise Violation("reported %d changed triples, %d changed: %s" % (x["ret"], nd + ni, text))
    def run(self, ctx, case, rep):
        self.start(ctx, case); self.verify("after the build")
        removed = nt = False
        for i, op in enumerate(case["ops"]):
            nd, ni = self.do(op, rep)
            self.verify("after step %d: %s" % (i, Model(()).apply(op)[0]))
            rep.ev()
            nt = nt or (removed and ni > 0); removed = removed or nd > 0
            if not self.m.s: rep.label("state became empty")
        if nt:
            rep.nontrivial(case); rep.sample({"init": len(case["init"]), "ops": [Model(()).apply(o)[0] or o for o in case["ops"]][:5]})
        self.finish()
CHECK = C02()
