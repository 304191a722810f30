from history import *
ISO = {1: "READ COMMITTED", 2: "SNAPSHOT", 3: "SERIALIZABLE"}
TQ = "SELECT ?s ?p ?o WHERE { ?s ?p ?o . }"

class C13(HistoryCheck):
    prop = "C13"
    title = "A transaction takes effect as a whole or not at all, and sees its own writes"
    technique = "stateful property-based testing against a set model"
    rule = ("a case builds a database and runs transactions one after another (every isolation level, several SPARQL updates each, reads in between, then commit, rollback, or left running "
            "until the database is closed), with checkpoints, restarts and ordinary updates between them. A read in a transaction must return the committed triples with the transaction's own "
            "changes; after a commit all of them, after a rollback none, are seen by later transactions, and after a checkpoint or a restart by ordinary queries. Non-trivial: a transaction with an "
            "effective update that was read back and ended; distinct by (state, transaction).")
    quick = 2200; thorough = 20000
    W = {"ins": 5, "del": 5, "delw": 1, "mod": 2, "q": 3, "dump": 2}
    def valid(self, case):
        if not valid_graph(case["init"]): return False
        for s in case["steps"]:
            if s[0] == 'txn':
                if len(s) != 4 or s[1] not in ISO or s[3] not in ('commit', 'rollback', 'open'): return False
                for o in s[2]:
                    if o == ['dump']: continue
                    if o[0] == 'q':
                        if len(o) != 2 or not valid_group(o[1]) or not rdf.group_vars(o[1]): return False
                    elif not self.valid_op(o): return False
            elif s[0] == 'upd':
                if not self.valid_op(s[1]): return False
            elif s[0] not in ('ckpt', 'reopen'): return False
        return True
    def op_domain(self, o):
        if o[0] in ('fins', 'fdel', 'save', 'reopen'): return False
        if o[0] == 'delw': return upd_ok(o[1])
        if o[0] == 'mod': return upd_ok([t for t in o[3] if t[0] == 't'])
        return True
    def gen(self, r, i, tier):
        p = Pool(r, ents=r.choice([3, 5, 8]), lits=r.choice([3, 6]))
        init = p.triples(0, r.choice([4, 14]))
        m = Model(init); steps = []
        for _ in range(r.randrange(1, 5)):
            t = Model(m.s); ops = []
            for _ in range(r.randrange(1, 7)):
                k = wchoice(r, self.W)
                if k == 'dump': ops.append(['dump']); continue
                if k == 'q':
                    b = gen_where(r, t, p)
                    if b: ops.append(jl(['q', b]))
                    continue
                o = gen_op(r, k, p, t)
                if o: ops.append(jl(o)); t.apply(ops[-1])
            end = r.choice(['commit', 'commit', 'commit', 'rollback', 'rollback', 'open'])
            steps.append(['txn', r.choice([1, 2, 3]), ops, end])
            if end == 'commit': m = t
            if end == 'open': steps.append(['reopen']); continue
            x = r.random()
            if x < .25: steps.append(['ckpt'])
            elif x < .4: steps.append(['reopen'])
            if x < .4 and r.random() < .4:
                o = gen_op(r, r.choice(['ins', 'del']), p, m)
                steps.append(['upd', jl(o)]); m.apply(steps[-1][1])
        return jl({"init": init, "steps": steps})
    def tread(self, tid, text, sel, exp, what):
        x = self.ctx.driver().cmd("tq", self.name, tid, text)["r"]
        compare(rows_or_violation(x, text, sel), exp, "%s in a transaction (%s)" % (text, what))
    def run(self, ctx, case, rep):
        self.start(ctx, case); D = ctx.driver()
        D.cmd("tmnew", self.name)
        clean = True        # everything committed is in the base data
        for s in case["steps"]:
            if s[0] == 'txn':
                tid = D.cmd("begin", self.name, s[1])["tid"]
                t = Model(self.m.s); what = ISO[s[1]]; eff = rd = 0; before = set(self.m.s)
                for o in s[2]:
                    if o == ['dump']:
                        self.tread(tid, TQ, ["s", "p", "o"], list(t.s), what); rd = rd or (1 if eff else 0)
                    elif o[0] == 'q':
                        try: exp = rdf.eval_group(t.s, o[1])
                        except (rdf.TooBig, rdf.Ambig): continue
                        vs = rdf.group_vars(o[1])
                        self.tread(tid, "SELECT %s WHERE %s" % (" ".join("?" + v for v in vs), rdf.show_group(o[1])), vs, [tuple(b.get(v) for v in vs) for b in exp], what)
                        rd = rd or (1 if eff else 0)
                    else:
                        text, nd, ni = t.apply(o); eff += nd + ni
                        x = D.cmd("tq", self.name, tid, text)["r"]
                        if x.get("exc") or x["ret"] < 0: raise Violation("update in a lone transaction (%s) failed (ret %s, %s): %s" % (what, x["ret"], x.get("exc"), text))
                    rep.label("op " + o[0])
                rep.label("%s %s" % (what, s[3]))
                if s[3] != 'open':
                    ret = D.cmd(s[3], self.name, tid)["ret"]
                    if ret != 0: raise Violation("%s of a running transaction (%s) returned %s" % (s[3], what, ret))
                if s[3] == 'commit': self.m = t; clean = clean and not eff
                # a later transaction of each kind sees exactly the committed state
                if s[3] != 'open':
                    for iso in (1, 2, 3):
                        t2 = D.cmd("begin", self.name, iso)["tid"]
                        self.tread(t2, TQ, ["s", "p", "o"], list(self.m.s), ISO[iso] + ", after the %s of another transaction" % s[3])
                        D.cmd("commit", self.name, t2)
                rep.ev()
                if eff and rd:
                    rep.nontrivial([sorted(map(repr, before)), s]); rep.sample({"before": len(before), "transaction": [ISO[s[1]], [o[0] for o in s[2]], s[3]], "after": len(self.m.s)})
            elif s[0] == 'ckpt':
                D.cmd("checkpoint", self.name); clean = True; self.verify("after a checkpoint")
            elif s[0] == 'reopen':
                D.cmd("close", self.name); load_db(ctx, self.name); D.cmd("tmnew", self.name); clean = True
                self.verify("after closing and reopening")
            elif s[0] == 'upd' and clean:
                self.do(s[1], rep); self.verify("after an ordinary update")
        D.cmd("close", self.name); load_db(ctx, self.name)
        self.verify("after closing and reopening at the end")
        self.finish()
CHECK = C13()
