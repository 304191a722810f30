import glob, shutil
from history import *
class C16(HistoryCheck):
    prop = "C16"
    title = "A restored backup is exactly the database at the time of the backup"
    technique = "stateful property-based testing against a set model"
    rule = ("a case builds a database of 0-14 or up to 3000 triples and interleaves updates, saves and reopenings with backups of the open database (some right after unsaved updates) and "
            "restores (half of the backups are taken while the previous one is still there; the database directory is replaced by a copy of the backup folder, as the grestore tool and the HTTP interface do; the open database is closed or its process killed "
            "first). The contents after each restore are compared with the set as it was when that backup was taken, the contents after each backup with the current set, and after the last "
            "step every backup is restored once more and checked with one probe per access shape. Non-trivial: a restored backup whose set differs from the current one or that "
            "was taken with unsaved updates; distinct by case.")
    quick = 900; thorough = 20000
    W = {"ins": 4, "del": 4, "fins": 1, "fdel": 1, "delw": 1, "mod": 1, "save": 1, "reopen": 1, "backup": 4, "restore": 3}
    WB = {"fins": 4, "fdel": 4, "ins": 1, "del": 1, "reopen": 1, "backup": 4, "restore": 2}
    timeout = 60
    def gen(self, r, i, tier):
        b = i % 25 == 24
        c = (gen_bulk if b else gen_history)(r, self.WB if b else self.W, r.randrange(2, 6 if b else 12))
        nb = 0; ops = []
        for o in c["ops"]:
            if o[0] == 'backup':
                nb += 1
                if r.random() < .5: o = ["backup", True]
            elif o[0] == 'restore':
                if not nb: o = ["backup"]; nb += 1
                else: o = ["restore", nb - 1 if r.random() < .6 else r.randrange(nb), r.random() < .4]
            ops.append(o)
        if not nb: ops.append(["backup"])
        c["ops"] = ops
        return c
    def valid_op(self, o):
        if o and o[0] == "backup": return len(o) == 1 or o[1:] == [True]
        if o and o[0] == "restore": return len(o) == 3 and isinstance(o[1], int) and isinstance(o[2], bool)
        return HistoryCheck.valid_op(self, o)
    def valid(self, case):
        if not HistoryCheck.valid(self, case): return False
        nb = 0
        for o in case["ops"]:
            if o[0] == "backup": nb += 1
            if o[0] == "restore" and not 0 <= o[1] < nb: return False
        return True
    def op_domain(self, o):
        if o[0] == 'delw': return upd_ok(o[1])
        if o[0] == 'mod': return upd_ok([t for t in o[3] if t[0] == 't'])
        return True
    def restore(self, k, kill):
        D = self.ctx.driver()
        if kill: D.kill()
        else: D.cmd("close", self.name)
        db = self.ctx.path(self.name + ".db")
        shutil.rmtree(db); shutil.copytree(self.ctx.path("backups/%s_%d" % (self.name, k)), db)
        load_db(self.ctx, self.name, self.csr)
        self.m.s = set(self.baks[k])
    def run(self, ctx, case, rep):
        self.start(ctx, case)
        self.baks = []; dirty = nt = False
        for i, op in enumerate(case["ops"]):
            if op[0] == "backup":
                x = ctx.driver().cmd("backup", self.name)
                if not x.get("ok"): raise Violation("backup failed: %s" % x)
                b, k = ctx.path("backups/%s.db" % self.name), ctx.path("backups/%s_%d" % (self.name, len(self.baks)))
                if len(op) > 1: shutil.copytree(b, k)       # the next backup finds this one in its place
                else: os.rename(b, k)
                self.baks.append(frozenset(self.m.s))
                if dirty: nt = True; rep.label("backup of unsaved updates")
                dirty = False
            elif op[0] == "restore":
                if self.baks[op[1]] != self.m.s: nt = True; rep.label("restore of an older state")
                self.restore(op[1], op[2]); dirty = False
                rep.label("op restore" + (" after kill" if op[2] else ""))
            else:
                nd, ni = self.do(op, rep)
                if nd + ni: dirty = True
                if op[0] in ("save", "reopen"): dirty = False
            if op[0] in ("backup", "restore"):
                self.verify("after step %d: %s" % (i, op)); rep.ev()
        self.verify("at the end")
        for k in range(len(self.baks)):
            self.restore(k, False)
            self.verify("after restoring backup %d at the end" % k); rep.ev()
            for q, exp, sel in probes(self.m.s, 6):
                x = ctx.driver().cmd("qm", self.name, q)["rs"][0]
                compare(rows_or_violation(x, q, sel), exp, q)
        if nt:
            rep.nontrivial(case); rep.sample({"init": len(case["init"]), "ops": [[o[0]] + [len(x) if isinstance(x, list) else x for x in o[1:]] for o in case["ops"]]})
        self.finish()
        for p in glob.glob(ctx.path("backups/*")): shutil.rmtree(p, ignore_errors=True)
CHECK = C16()
