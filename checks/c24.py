from history import *
TY = ["http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "type", "rdf:TYPE"]
def typed(p): return any(x in p[1] for x in ("type", "TYPE", "\u7c7b\u578b"))
def figures(s):
    subj = {t[0] for t in s}; obj = {t[2] for t in s}; cl = {}
    for t in s:
        if typed(t[1]) and t[2][0] == 'u': n = "<%s>" % t[2][1]; cl[n] = cl.get(n, 0) + 1
    return {"triples": len(s), "subjects": len(subj), "predicates": len({t[1] for t in s}),
            "entities": len(subj | {o for o in obj if o[0] == 'u'}), "literals": len({o for o in obj if o[0] != 'u'}), "types": cl}
class C24(HistoryCheck):
    prop = "C24"
    title = "The figures reported for a database are those of its triples"
    technique = "stateful property-based testing against a set model"
    rule = ("a case builds a database (statements of the document repeated in part of the cases) and applies SPARQL updates, file insertions and removals, saves, reopenings and whole transactions (committed or rolled "
            "back, then checkpointed); after every step the numbers of triples, subjects, predicates, entities and literals and the number of instances per class, as the monitor request, gmonitor and show report them, are compared with "
            "those counted from the model's triples. After a rolled-back transaction only triples, subjects and classes are compared (its new strings stay in the dictionary). Non-trivial: a step that changes the set; distinct by case and step.")
    quick = 1500; thorough = 30000
    W = {"ins": 4, "del": 4, "fins": 3, "fdel": 3, "delw": 1, "mod": 2, "save": 1, "reopen": 2}
    WB = {"fins": 4, "fdel": 4, "ins": 1, "del": 1, "reopen": 1}
    timeout = 60
    def gen(self, r, i, tier):
        if i % 25 == 24: c = gen_bulk(r, self.WB, r.randrange(2, 6))
        else:
            p = Pool(r)
            if r.random() < .7: p.p.append(U(r.choice(TY)))
            c = gen_history(r, self.W, r.randrange(2, 14), p)
            if r.random() < .3:
                ops = []; rest = c["ops"]
                while rest:
                    k = r.randrange(1, 4)
                    g = [o for o in rest[:k] if o[0] in ("ins", "del", "delw", "mod")]
                    if len(g) == len(rest[:k]) and g and r.random() < .5: ops.append(["txn", g, r.random() < .75])
                    else: ops += rest[:k]
                    rest = rest[k:]
                c["ops"] = ops
        c["dup"] = r.randrange(1, 4) if r.random() < .3 else 0
        return jl(c)
    def valid_op(self, o):
        if o and o[0] == "txn": return len(o) == 3 and isinstance(o[1], list) and o[1] and isinstance(o[2], bool) and all(x[0] in ("ins", "del", "delw", "mod") and HistoryCheck.valid_op(self, x) for x in o[1])
        return HistoryCheck.valid_op(self, o)
    def valid(self, case): return isinstance(case.get("dup", 0), int) and HistoryCheck.valid(self, case)
    def op_domain(self, o):
        if o[0] == 'delw': return upd_ok(o[1])
        if o[0] == 'mod': return upd_ok([t for t in o[3] if t[0] == 't'])
        return True
    def look(self, what, leak):
        x = self.ctx.driver().cmd("stats", self.name)
        exp = figures(self.m.s)
        if leak:
            for k in ("entities", "literals", "predicates"): exp.pop(k)
        got = {k: x.get(k) for k in exp}
        if got != exp: raise Violation("figures %s: reported %s, the triples have %s" % (what, {k: v for k, v in got.items() if v != exp[k]}, {k: v for k, v in exp.items() if v != got[k]}))
    def txn(self, op, rep):
        D = self.ctx.driver(); old = set(self.m.s)
        D.cmd("tmnew", self.name)
        t = str(D.cmd("begin", self.name, "1")["tid"])
        for o in op[1]:
            text, nd, ni = self.m.apply(o)
            x = D.cmd("tq", self.name, t, text)["r"]
            if x.get("exc") or x["ret"] < 0: raise Violation("update in a transaction failed (ret %s, %s): %s" % (x["ret"], x.get("exc"), text))
        x = D.cmd("commit" if op[2] else "rollback", self.name, t)
        if x["ret"] != 0: raise Violation("%s returned %s" % ("commit" if op[2] else "rollback", x["ret"]))
        if not op[2]: self.m.s = old
        D.cmd("checkpoint", self.name); D.cmd("tmdel", self.name)
        rep.label("op txn " + ("commit" if op[2] else "rollback"))
        return len(old ^ self.m.s), 0
    def run(self, ctx, case, rep):
        self.ctx = ctx; init = case["init"]
        self.start(ctx, dict(case, init=init + init[:case.get("dup", 0)]))
        leak = False
        self.look("after building", leak); rep.ev()
        for i, op in enumerate(case["ops"]):
            if op[0] == "txn":
                nd, ni = self.txn(op, rep); leak = leak or not op[2]
            else: nd, ni = self.do(op, rep)
            self.look("after step %d: %s" % (i, op), leak); rep.ev()
            if nd or ni: rep.nontrivial([case, i]); rep.sample({"step": op if len(str(op)) < 300 else op[0], "figures": {k: v for k, v in figures(self.m.s).items() if k != "types"}})
        self.finish()
CHECK = C24()
