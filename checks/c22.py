from httpcheck import *
class C22(HttpCheck):
    prop = "C22"
    title = "HTTP requests are obeyed only with the right password and privileges"
    technique = "stateful property-based testing of the running server against a model of its users, passwords and privileges"
    rule = ("a case is 4-30 requests (POST, GET, GET with the whole URL encoded) by root, up to 3 users and an unknown one, with right, wrong, empty, hashed and wrongly marked passwords: users are made, deleted and given "
            "passwords and privileges, databases built, loaded, queried, updated, renamed, dropped, backed up and restored; the server is stopped or killed in between. Every request must be refused with 1001 (password), 1004 "
            "(privilege) or obeyed as the model says, and users, passwords, privileges, databases and contents must be those of the model after each restart and at the end. Non-trivial: a request refused "
            "and a request obeyed by a user other than root; distinct by case.")
    quick = 700; thorough = 20000; quick_s = 22; workers = 8
    W = {"adduser": 2, "deluser": 1.2, "setpw": .7, "mypw": 1, "priv": 6, "build": 2, "load": 3, "unload": 1.5, "drop": .8, "rename": .8, "monitor": 1, "show": 1.5, "showuser": .7, "query": 4, "update": 4,
         "bins": .7, "brem": .7, "txn": 1.5, "ckpt": .7, "backup": .4, "restore": .5, "export": .7, "plain": 2.5, "again": .7, "restart": .5, "kill": .5, "lock": .5}
    def gen(self, r, i, tier):
        return jl(self.gen_case(r, self.W, r.randrange(4, 30), Pool(r, ents=4, preds=2, lits=3)))
    def run(self, ctx, case, rep):
        self.begin(ctx, case)
        self.run_ops(case, rep)
        self.check_state()
        if self.denied and self.changed > 2 and any(o[1] >= 0 for o in case["ops"]):
            rep.nontrivial(case); rep.sample({"ops": [[o[0], self.uname(o[1])] for o in case["ops"]][:12], "refused": self.denied})
        self.cleanup()
CHECK = C22()
