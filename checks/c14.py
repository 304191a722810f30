import itertools, json
from history import *
ISO = {1: "READ COMMITTED", 2: "SNAPSHOT", 3: "SERIALIZABLE"}      # the numbers of docs/zh-cn/API.md, begin
TQ = "SELECT ?s ?p ?o WHERE { ?s ?p ?o . }"

class Txn:
    def __init__(self, iso): self.iso = iso; self.state = 'new'; self.add = set(); self.rem = set(); self.log = []; self.rivals = set()
    def view(self, base): return (base - self.rem) | self.add
    def write(self, base, new):
        """The view became new."""
        self.add = new - base; self.rem = base - new

def new_terms(case):
    """Terms the transactions use that the database does not hold at the beginning (no key to lock them by: known finding)."""
    def walk(x, out):
        if isinstance(x, (list, tuple)):
            if x and x[0] in ('u', 'l') and all(isinstance(y, (str, type(None))) for y in x): out.add(('n', json.dumps(x)))
            elif x and isinstance(x[0], (list, tuple)) and len(x) == 3 and x[0] and x[0][0] in ('u', 'l', 'v'):
                walk(x[0], out); walk(x[2], out)
                if x[1][0] == 'u': out.add(('p', json.dumps(x[1])))
            elif x and x[0] == 't': walk(x[1:], out)
            else:
                for y in x: walk(y, out)
    have, used = set(), set()
    walk(jl(case["init"]), have); walk([t[1] for t in jl(case["txns"])], used)
    return used - have

class C14(HistoryCheck):
    prop = "C14"
    title = "Concurrent transactions see what their isolation level promises"
    technique = "stateful property-based testing: generated interleavings against an isolation model and a serializability search"
    rule = ("a case builds a database and interleaves 2-4 transactions step by step (reads of whole contents and of patterns, updates, commit, rollback). READ COMMITTED reads must return the "
            "committed state at that moment, SNAPSHOT reads the state at the transaction's start, both with its own changes and never another's uncommitted ones; two overlapping SNAPSHOT "
            "transactions that changed the same triple never both commit; for SERIALIZABLE histories some serial order of the committed transactions must explain every read and the final contents. "
            "Conflict aborts are allowed only when another transaction overlapped. The committed contents must survive a restart. Non-trivial: two overlapping transactions of which one wrote and "
            "committed while the other read or wrote; distinct by case.")
    quick = 3000; thorough = 20000
    W = {"ins": 4, "del": 4, "mod": 2, "q": 3, "dump": 3}
    def valid(self, case):
        if not valid_graph(case["init"]) or len(case["txns"]) < 1: return False
        for t in case["txns"]:
            if t[0] not in ISO or t[2] not in ('commit', 'rollback'): return False
            for o in t[1]:
                if o == ['dump']: continue
                if o[0] == 'q':
                    if len(o) != 2 or not valid_group(o[1]) or not rdf.group_vars(o[1]): return False
                elif not self.valid_op(o): return False
        if any(t[0] == 3 for t in case["txns"]) and new_terms(case): return False
        return len({t[0] == 3 for t in case["txns"]}) == 1 and all(isinstance(k, int) and 0 <= k < len(case["txns"]) for k in case["sched"])
    def op_domain(self, o):
        if o[0] in ('fins', 'fdel', 'save', 'reopen', 'delw'): return False
        if o[0] == 'mod': return upd_ok([t for t in o[3] if t[0] == 't'])
        return True
    def gen(self, r, i, tier):
        p = Pool(r, ents=r.choice([2, 4, 8]), preds=r.choice([2, 4]), lits=r.choice([2, 4]))
        init = p.triples(r.choice([0, 3]), r.choice([5, 12]))
        sr = r.random() < .4
        if sr and r.random() < .4: return self.skew(r)
        m = Model(init); txns = []
        m0 = Model(init)
        for _ in range(r.choice([2, 2, 3, 4])):
            ops = []
            for _ in range(r.randrange(1, 5)):
                k = wchoice(r, self.W)
                if sr and init and k == "dump" and r.random() < .6:
                    t = r.choice(init); j = r.randrange(3)
                    ops.append(jl(['q', [["t"] + [t[x] if x == j else V("spo"[x]) for x in range(3)]]])); continue
                if k == 'dump': ops.append(['dump']); continue
                if k == 'q':
                    b = gen_where(r, r.choice([m, m0]), p)
                    if b: ops.append(jl(['q', b]))
                    continue
                o = gen_op(r, k, p, r.choice([m, m0]), size=2)
                if o: ops.append(jl(o)); m.apply(ops[-1])
            txns.append([3 if sr else r.choice([1, 2]), ops, 'commit' if r.random() < .8 else 'rollback'])
        case = jl({"init": init, "txns": txns, "sched": []})
        for kind, t in sorted(new_terms(case)) if sr else ():
            t = json.loads(t); a = t if kind == 'n' and t[0] == 'u' else jl(p.e[0])
            case["init"].append([a, t if kind == 'p' else jl(p.p[0]), t if t[0] == 'l' else jl(p.e[0])])
        case["init"] = [json.loads(t) for t in dict.fromkeys(json.dumps(t) for t in case["init"])]
        sched = [k for k, t in enumerate(txns) for _ in range(len(t[1]) + 2)]
        r.shuffle(sched)
        case["sched"] = sched
        return case
    def skew(self, r):
        """SERIALIZABLE transactions that read what the others write, on disjoint subjects, predicates and objects."""
        n = r.choice([2, 2, 3]); ts = [[U("s%d" % i), U("p%d" % i), U("o%d" % i)] for i in range(n)]; one = r.random() < .5
        init = [t for t in ts] + [[U("f"), t[1], U("w%d" % i)] for i, t in enumerate(ts)]; txns = []
        for i in range(n):
            t = ts[(i + 1) % n]; j = r.randrange(3)
            pat = ['t'] + [t[x] if x == j or r.random() < .4 and not (one and x != j) else V("spo"[x]) for x in range(3)]
            if not any(x[0] == 'v' for x in pat[1:]): pat[3] = V("o")
            w = ['ins', [[ts[i][0], ts[i][1], U("w%d" % i)]]] if r.random() < .6 else ['del', [ts[i]]]
            ops = [['q', [pat]], w]
            if r.random() < .2: ops.reverse()
            if r.random() < .2: ops.append(['q', [pat]])
            txns.append([3, ops, 'commit'])
        beg = list(range(n)); r.shuffle(beg); sched = [k for k in range(n) for _ in range(len(txns[k][1]) + 1)]
        if r.random() < .5: r.shuffle(sched)
        else: sched.sort(key=lambda k: (beg.index(k) * 7 + 1) % 3)
        return jl({"init": init, "txns": txns, "sched": beg + sched})
    def run(self, ctx, case, rep):
        self.start(ctx, case); D = ctx.driver()
        D.cmd("tmnew", self.name)
        T = [Txn(t[0]) for t in case["txns"]]
        sr = T[0].iso == 3
        C = set(self.m.s); committed = []
        sched = list(case["sched"]) + [k for k, t in enumerate(case["txns"]) for _ in range(len(t[1]) + 2)]
        for k in sched:
            t = T[k]; iso, ops, end = case["txns"][k]; what = "%s transaction %d" % (ISO[iso], k)
            if t.state == 'new':
                t.tid = D.cmd("begin", self.name, iso)["tid"]; t.state = 'run'; t.pc = 0; t.snap = set(C)
                for o in T:
                    if o is not t and o.state == 'run': o.rivals.add(k); t.rivals.add(T.index(o))
                continue
            if t.state != 'run': continue
            base = t.snap if iso == 2 else set(C)
            if t.pc == len(ops):
                ret = D.cmd(end, self.name, t.tid)["ret"]
                if ret != 0: raise Violation("%s of running %s returned %s" % (end, what, ret))
                t.state = end
                if end == 'commit':
                    if iso == 2:
                        for j in t.rivals:
                            o = T[j]
                            if o.state == 'commit' and o.iso == 2 and (o.add | o.rem) & (t.add | t.rem):
                                raise Violation("both overlapping SNAPSHOT transactions %d and %d committed a change of %s" % (j, k, rdf.show_rows(sorted((o.add | o.rem) & (t.add | t.rem), key=repr)) if hasattr(rdf, 'show_rows') else (o.add | o.rem) & (t.add | t.rem)))
                    C = (C - t.rem) | t.add; committed.append(k)
                continue
            op = ops[t.pc]; t.pc += 1
            if op == ['dump'] or op[0] == 'q':
                vs = ["s", "p", "o"] if op == ['dump'] else rdf.group_vars(op[1])
                text = TQ if op == ['dump'] else "SELECT %s WHERE %s" % (" ".join("?" + v for v in vs), rdf.show_group(op[1]))
                pat = op[1] if op[0] == 'q' else [["t", V("s"), V("p"), V("o")]]
            else:
                new = Model(t.view(base)); text, nd, ni = new.apply(op)
            x = D.cmd("tq", self.name, t.tid, text)["r"]
            if not x.get("exc") and x["ret"] == -20:
                if not t.rivals: raise Violation("%s was aborted for a conflict although no other transaction ran: %s" % (what, text))
                t.state = 'aborted'; rep.label("abort %s %s" % (ISO[iso], "read" if op[0] in ('q', 'dump') else "write"))
                y = D.cmd("commit", self.name, t.tid)
                if y["ret"] == 0: raise Violation("aborted %s could still be committed" % what)
                continue
            if op[0] in ('q', 'dump'):
                got = rows_or_violation(x, text, vs)
                if not sr:
                    exp = [tuple(b.get(v) for v in vs) for b in rdf.eval_group(t.view(base), pat)]
                    compare(got, exp, "%s in %s" % (text, what))
                t.log.append(('r', pat, vs, sorted(got, key=repr)))
                rep.label("%s read" % ISO[iso])
            else:
                if x.get("exc") or x["ret"] < 0: raise Violation("update in %s failed (ret %s, %s): %s" % (what, x["ret"], x.get("exc"), text))
                t.write(base, new.s); t.log.append(('w', op)); rep.label("%s write" % ISO[iso])
        if sr: self.m.s = self.serial(case, [(k, T[k].log) for k in committed], dump_txn(ctx, self.name, rep))
        else:
            self.m.s = C
            compare(dump_txn(ctx, self.name, rep), list(C), "contents after all transactions ended")
        rep.ev()
        for k in committed:
            if any(e[0] == 'w' for e in T[k].log) and any(T[j].log for j in T[k].rivals):
                rep.nontrivial(case); rep.sample({"init": len(case["init"]), "transactions": [[ISO[t[0]], [o[0] for o in t[1]], t[2]] for t in case["txns"]], "ended": [t.state for t in T]}); break
        D.cmd("checkpoint", self.name)
        self.verify("after a checkpoint")
        D.cmd("close", self.name); load_db(ctx, self.name)
        self.verify("after closing and reopening")
        self.finish()
    def serial(self, case, logs, final):
        """The contents some serial order of the committed transactions leaves, when one explains every read."""
        init = Model(case["init"]).s; why = None
        for order in itertools.permutations(logs):
            m = Model(); m.s = set(init); ok = True
            for k, log in order:
                for e in log:
                    if e[0] == 'w': m.apply(e[1])
                    else:
                        exp = sorted([tuple(b.get(v) for v in e[2]) for b in rdf.eval_group(m.s, e[1])], key=repr)
                        if exp != e[3]: ok = False; break
                if not ok: break
            if ok and sorted(map(tuple, final), key=repr) == sorted(m.s, key=repr): return m.s
        raise Violation("no serial order of the committed SERIALIZABLE transactions %s explains what they read and the final contents %s\n%s" % (
            [k for k, _ in logs], fmt_rows(final), "\n".join("  %d: %s" % (k, log) for k, log in logs)))

def dump_txn(ctx, name, rep):
    D = ctx.driver()
    tid = D.cmd("begin", name, 3)["tid"]
    x = D.cmd("tq", name, tid, TQ)["r"]
    D.cmd("commit", name, tid)
    return rows_or_violation(x, TQ, ["s", "p", "o"])
CHECK = C14()
