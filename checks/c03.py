from history import *
class C03(HistoryCheck):
    prop = "C03"
    title = "Stored data survives save, close and reopening"
    technique = "stateful property-based testing against a set model"
    rule = ("a case builds a database of 0-14 or up to 3000 triples and interleaves updates (SPARQL and batch files) with save, close+reopen in the same process, close+reopen in a "
            "new process, and a save after which the process answers a query and is killed (-9); contents are compared with the set right after every save and reopen and at the end, together with one probe per access shape after the last reopen. "
            "Non-trivial: a reopen after an update that changed something; distinct by case.")
    quick = 1600; thorough = 30000
    W = {"ins": 4, "del": 4, "fins": 2, "fdel": 2, "delw": 1, "mod": 1, "save": 2, "reopen": 4, "restart": 1, "kill": 2}
    WB = {"fins": 4, "fdel": 4, "ins": 1, "del": 1, "save": 1, "reopen": 4, "kill": 1}
    timeout = 60
    def gen(self, r, i, tier):
        if i % 25 == 24: c = gen_bulk(r, self.WB, r.randrange(2, 6))
        else: c = gen_history(r, self.W, r.randrange(2, 14))
        c["ops"].append(["reopen"])
        return c
    def valid_op(self, o): return o in (["restart"], ["kill"]) or HistoryCheck.valid_op(self, o)
    def op_domain(self, o):
        if o[0] == 'delw': return upd_ok(o[1])
        if o[0] == 'mod': return upd_ok([t for t in o[3] if t[0] == 't'])
        return True
    def run(self, ctx, case, rep):
        self.start(ctx, case)
        changed = nt = False
        for i, op in enumerate(case["ops"]):
            if op[0] == "restart":
                ctx.driver().cmd("close", self.name); ctx.driver().quit()
                load_db(ctx, self.name, self.csr); rep.label("op restart")
            elif op[0] == "kill":       # of a process that has saved everything, and then only answered queries
                x = ctx.driver().cmd("save", self.name)
                if not x.get("ok"): raise Violation("save failed: %s" % x)
                self.verify("after the save of step %d" % i)
                ctx.driver().kill()
                load_db(ctx, self.name, self.csr); rep.label("op kill")
            else:
                nd, ni = self.do(op, rep)
                changed = changed or nd + ni > 0
            if op[0] in ("save", "reopen", "restart", "kill"):
                self.verify("after step %d: %s" % (i, op[0])); rep.ev()
                if op[0] != "save" and changed: nt = True
        self.verify("at the end")
        for q, exp, sel in probes(self.m.s, 6):
            x = ctx.driver().cmd("qm", self.name, q)["rs"][0]
            compare(rows_or_violation(x, q, sel), exp, q)
        if nt:
            rep.nontrivial(case); rep.sample({"init": len(case["init"]), "ops": [[o[0]] + [len(x) if isinstance(x, list) else x for x in o[1:]] for o in case["ops"]]})
        self.finish()
CHECK = C03()
