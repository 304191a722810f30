import itertools, time
from history import *
DUMP = [["t", V("s"), V("p"), V("o")]]
DUMPL = jl(DUMP)
class C15(HistoryCheck):
    prop = "C15"
    title = "Concurrent queries and updates take effect one at a time"
    technique = "stateful property-based testing: random multi-threaded histories checked for linearizability against a set model"
    rule = ("a case builds a database and runs 2-5 threads of SPARQL queries and updates on it at once, recording the order in which operations begin and end. Every answer must be the one of a "
            "sequential execution of the operations that respects that order; an operation is refused (-101) only while a conflicting one runs, and then has no effect; the contents left, also after a "
            "restart, are those of the sequential execution. Non-trivial: an effective update overlapping an operation of another thread, or several overlapping queries; distinct by case.")
    quick = 1200; thorough = 20000; quick_s = 22; recycle = 40; attempts = 24; workers = 4
    assumptions = ["threads are scheduled by the operating system: which overlaps a case reaches differs from run to run"]
    def valid(self, case):
        if not valid_graph(case["init"]): return False
        if "txns" in case:
            if len({sum(o == ['B'] for t in th for o in t[1]) for th in case["txns"]}) != 1: return False
            return bool(case["txns"]) and all(t[0] in (1, 2, 3) and t[0] == case["txns"][0][0][0] and t[2] in 'cr' and all(o in (['dump'], ['B']) or o[0] == 'z' and len(o) == 2 or
                len(o) == 2 and o[0] == 'q' and valid_group(o[1]) and rdf.group_vars(o[1]) or len(o) == 2 and o[0] in ('ins', 'del') and valid_graph(o[1]) and o[1] for o in t[1]) for th in case["txns"] for t in th)
        if not isinstance(case["bulk"], int) or not case["threads"]: return False
        for t in case["threads"]:
            for o in t:
                if o[0] == 'z':
                    if len(o) != 2: return False
                elif o[0] == 'q':
                    if len(o) != 2 or not valid_group(o[1]) or not rdf.group_vars(o[1]): return False
                elif not self.valid_op(o): return False
        return True
    def op_domain(self, o):
        if o[0] in ('fins', 'fdel', 'save', 'reopen'): return False
        if o[0] in ('mod', 'delw') and any(t[2][0] == 'v' for t in o[-1] if t[0] == 't'): return False      # leaves the bulk alone
        if o[0] == 'delw': return upd_ok(o[1])
        if o[0] == 'mod': return upd_ok([t for t in o[3] if t[0] == 't'])
        return True
    def gen(self, r, i, tier):
        if r.random() < .5: return self.gen_txn(r)
        p = Pool(r, ents=r.choice([3, 6]), preds=r.choice([2, 4]), lits=4)
        init = p.triples(0, r.choice([4, 14])); m = Model(init)
        readers = r.random() < .2
        W = {"q": 3, "dump": 3} if readers else {"ins": 4, "del": 3, "mod": 1, "delw": .5, "q": r.choice([1, 4]), "dump": r.choice([1, 4])}
        threads = []
        for _ in range(r.choice([2, 3, 4, 5])):
            ops = []
            for _ in range(r.randrange(2, 7)):
                k = wchoice(r, W)
                if k == 'dump': ops.append(['q', DUMP])
                elif k == 'q':
                    b = gen_where(r, m, p)
                    if b: ops.append(['q', b])
                else:
                    o = gen_op(r, k, p, m, size=r.choice([2, 6]))
                    if o and (k in ('ins', 'del') or self.op_domain(jl(o))): ops.append(o); m.apply(jl(o))
                if r.random() < .3: ops.append(['z', r.choice([1, 5, 20, 100])])
            threads.append(ops)
        return jl({"init": init, "bulk": r.choice([0, 0, 50, 500, 3000]), "threads": threads})
    def gen_txn(self, r):
        """Threads of transactions of one isolation level."""
        iso = r.choice([1, 2, 2, 2, 3, 3]); n = r.choice([3, 6, 10])
        pool = [(U("s%d" % r.randrange(n)), U("p%d" % r.randrange(n)), r.choice([U("o%d" % r.randrange(n)), L("v%d" % r.randrange(n))])) for _ in range(4 * n)]
        base = pool[:]
        if iso != 3: pool += [(U("n%d" % r.randrange(4)), U("q%d" % r.randrange(3)), L("w%d" % r.randrange(4))) for _ in range(n)]
        init = list(dict.fromkeys(t for t in base if r.random() < .5))
        if iso == 3: init += [t for t in dict.fromkeys((U("f"), t[1], t[2]) for t in base)] + [t for t in dict.fromkeys((t[0], U("pf"), L("f")) for t in base)]
        threads = []
        if iso == 2 and r.random() < .5:       # large commits while snapshots are taken
            big = [[(U("s%d_%d" % (k, j)), U("p%d" % (j % 3)), U("o%d_%d" % (k, j))) for j in range(r.choice([20, 100, 300, 1500]))] for k in range(2)]
            threads = [[[2, [[w, b], ['B']], 'c'] for w in (['ins', 'del'] if r.random() < .5 else ['ins'])] for b in big[:r.choice([1, 2])]]
            def probe():
                t = r.choice(r.choice(big)); j = r.choice([0, 2])
                return ['dump'] if r.random() < .4 else ['q', [['t'] + [t[x] if x == j else V("spo"[x]) for x in range(3)]]]
            bars = max(len(t) for t in threads)
            for t in threads: t[-1][1] += [['B']] * (bars - len(t))
            init = [(t[0], U("px"), t[2]) for b in big for t in b if r.random() < .1]
            for _ in range(r.choice([2, 3])):
                n = r.randrange(2, 6)
                threads.append([[2, [['z', r.choice([0, 1, 10, 50])], probe(), probe()][r.randrange(2):] + ([['B']] if k < bars else []), 'c'] for k in range(max(n, bars + 1))])
            return jl({"init": init, "txns": threads})
        if iso == 2 and r.random() < .2:      # the same new terms in every thread
            n = r.choice([3, 6]); kind = r.randrange(4)
            for k in range(r.choice([2, 3])):
                threads.append([[2, [['B'], ['ins', [(U("z%d_%d" % (k, j)), U("pz%d_%d" % (k, x)), U("zz%d_%d" % (k, x))) for x in range(r.choice([0, 0, 1, 2]))] +
                    [(U("k%d" % k if kind in (1, 2) else "k%d" % j), U("q%d" % j if kind != 2 else "q%d_%d" % (k, j)), L("w%d" % (j if kind > 1 else k)))]], ['dump']], 'c'] for j in range(n)])
            return jl({"init": init, "txns": threads})
        for k in range(r.choice([2, 3, 4])):
            ts = []
            for _ in range(r.randrange(1, 3) if k else 2):
                ops = []
                for _ in range(r.randrange(1, 4)):
                    x = r.random()
                    if x < .3: ops.append(['dump'])
                    elif x < .5: t = r.choice(pool); j = r.randrange(3); ops.append(['q', [['t'] + [t[x] if x == j else V("spo"[x]) for x in range(3)]]])
                    else: ops.append([r.choice(['ins', 'ins', 'del']), r.sample(pool, min(len(pool), r.choice([1, 2, 2, 4])))])
                    if r.random() < .3: ops.append(['z', r.choice([1, 5, 20])])
                if r.random() < .3: ops = [['dump'], ['z', r.choice([1, 10, 50])], ['dump']]
                ts.append([iso, ops, 'c' if r.random() < .85 else 'r'])
            threads.append(ts)
        return jl({"init": init, "txns": threads})
    def run_txn(self, ctx, case, rep):
        self.start(ctx, case); D = ctx.driver(); D.cmd("tmnew", self.name)
        init = frozenset(tuple(tt(x) for x in t) for t in case["init"]); scripts = []; T = []
        for th in case["txns"]:
            steps = []
            for iso, ops, end in th:
                steps.append("b\x1f%d" % iso); e = {"iso": iso, "b": len(steps) - 1, "steps": [], "th": len(scripts)}; T.append(e)
                for o in ops:
                    if o[0] == 'z': steps.append("z\x1f%d" % o[1]); continue
                    if o[0] == 'B': steps.append("B"); continue
                    if o[0] == 'dump': o = ['q', DUMPL]
                    text = "SELECT %s WHERE %s" % (" ".join("?" + v for v in rdf.group_vars(o[1])), rdf.show_group(o[1])) if o[0] == 'q' else Model().apply(o)[0]
                    steps.append("t\x1f" + text); e["steps"].append((len(steps) - 1, o, text))
                steps.append(end); e["e"] = len(steps) - 1; e["end"] = end
            scripts.append("\x1e".join(steps))
        rs = D.cmd("conc", self.name, *scripts)["rs"]
        for e in T:
            R = rs[e["th"]]; e["begin"] = R[e["b"]]["at"]; e["ended"] = R[e["e"]]["at"]; e["ok"] = True; e["log"] = []; what = "transaction [%d-%d]" % (e["begin"][0], e["ended"][1])
            for k, o, text in e["steps"]:
                x = R[k]
                if x.get("exc"): raise Violation("exception %s in %s: %s" % (x["exc"], what, text))
                if not e["ok"]:
                    if x["ret"] != -99: raise Violation("%s was aborted but answered %s to %s" % (what, x["ret"], text))
                    continue
                if x["ret"] == -20:
                    if not any(f is not e and rs[f["th"]][f["b"]]["at"][0] < x["at"][1] and e["begin"][0] < rs[f["th"]][f["e"]]["at"][1] for f in T): raise Violation("%s was aborted for a conflict although no other overlaps it: %s" % (what, text))
                    e["ok"] = False; rep.label("aborted %s" % e["iso"]); continue
                if o[0] == 'q': vs = rdf.group_vars(o[1]); e["log"].append(('r', frozenset(rows_or_violation(x, text, vs)), x["at"], o[1], vs))
                else:
                    if x["ret"] < 0: raise Violation("update failed (ret %s) in %s: %s" % (x["ret"], what, text))
                    e["log"].append(('w', o))
                rep.ev()
            ret = R[e["e"]]["ret"]
            if ret != (0 if e["ok"] else 1): raise Violation("%s of %s %s returned %s" % ({"c": "commit", "r": "rollback"}[e["end"]], "running" if e["ok"] else "aborted", what, ret))
            e["com"] = e["ok"] and e["end"] == "c"
            rep.label("%s %d" % ("committed" if e["com"] else "ended", e["iso"]))
        tid = D.cmd("begin", self.name, 2)["tid"]
        x = D.cmd("tq", self.name, tid, "SELECT ?s ?p ?o WHERE { ?s ?p ?o . }")["r"]; D.cmd("commit", self.name, tid)
        final = frozenset(rows_or_violation(x, "SELECT ?s ?p ?o", ["s", "p", "o"]))
        iso = T[0]["iso"]; com = [e for e in T if e["com"]]
        def writes(e, s):
            m = Model(); m.s = set(s)
            for l in e["log"]:
                if l[0] == 'w': m.apply(l[1])
            return frozenset(m.s)
        def fits(e, s):
            m = Model(); m.s = set(s)
            for l in e["log"]:
                if l[0] == 'w': m.apply(l[1])
                elif (frozenset(m.s) if l[3] == DUMPL else frozenset(tuple(b.get(v) for v in l[4]) for b in rdf.eval_group(m.s, l[3]))) != l[1]: return False
            return True
        wr = [e for e in com if any(l[0] == 'w' for l in e["log"])]
        found = False
        if len(wr) > 7: raise Skip()
        limit = time.process_time() + 6
        def show(): return "\n".join("  [%d-%d .. %d-%d] thread %d %s: %s" % (*e["begin"], *e["ended"], e["th"], "committed" if e["com"] else "rolled back" if e["ok"] else "aborted",
            "; ".join("read %s -> %s" % (rdf.show_group(l[3]), fmt_rows(sorted(l[1], key=repr))) if l[0] == 'r' else Model().apply(l[1])[0] for l in e["log"])) for e in T) + "\n  initially %s\n  finally %s" % (fmt_rows(sorted(init, key=repr)), fmt_rows(sorted(final, key=repr)))
        if iso == 3:
            rd = [e for e in com if e not in wr]
            for order in itertools.permutations(wr):
                if time.process_time() > limit: raise Skip()
                s = init; states = [s]; ok = True
                for e in order:
                    if not fits(e, s): ok = False; break
                    s = writes(e, s); states.append(s)
                if ok and s == final and all(any(fits(e, s) for s in states) for e in rd): found = True; break
            if not found: raise Violation("no serial order of the committed SERIALIZABLE transactions explains what they read and the final contents\n" + show())
        elif iso == 2:
            for order in itertools.permutations(wr):
                if time.process_time() > limit: raise Skip()
                if any(b["ended"][1] < a["ended"][0] for i, a in enumerate(order) for b in order[i + 1:]): continue     # commits in real-time order
                # what a transaction changes is decided against its snapshot, so the changes are applied as deltas of it
                s = init; states = [s]; ok = True
                pos = {}
                for k, e in enumerate(order): pos[id(e)] = k
                def snap(e, states, upto):
                    lo = sum(1 for f in order if f["ended"][1] < e["begin"][0]); hi = sum(1 for f in order if f["ended"][0] < e["begin"][1])
                    return [k for k in range(lo, min(hi, upto) + 1) if k < len(states) and fits(e, states[k])]
                for k, e in enumerate(order):
                    c = snap(e, states, k)
                    if not c: ok = False; break
                    deltas = {(frozenset(writes(e, states[j]) - states[j]), frozenset(states[j] - writes(e, states[j]))) for j in c}
                    if len(deltas) > 1: deltas = {d for d in deltas} 
                    nexts = {(s - d[1]) | d[0] for d in deltas}
                    s = sorted(nexts, key=lambda x: len(x ^ final))[0]; states.append(s)      # overlapping changes of the same triple abort, so these agree
                if ok and s == final and all(snap(e, states, len(order)) for e in T if e not in order): found = True; break
            if not found: raise Violation("no order of the commits explains what the SNAPSHOT transactions read and the final contents\n" + show())
        else:
            for e in T:
                own = set()
                for l in e["log"]:
                    if l[0] == 'w': own |= {tuple(tt(x) for x in t) for t in l[1][1]}; continue
                    if l[3] != DUMPL: continue
                    src = set(init) | own
                    for f in com:
                        if f["ended"][0] < l[2][1]: src |= {tuple(tt(x) for x in t) for m in f["log"] if m[0] == 'w' and m[1][0] == 'ins' for t in m[1][1]}
                    if l[1] - src: raise Violation("READ COMMITTED read %s, which nothing committed\n%s" % (fmt_rows(sorted(l[1] - src, key=repr)), show()))
        if wr and any(a["th"] != b["th"] and a["begin"][0] < b["ended"][1] and b["begin"][0] < a["ended"][1] for a in wr for b in T if b["log"]):
            rep.nontrivial(case); rep.sample({"isolation": iso, "threads": [[[[o[0] for o in t[1]], t[2]] for t in th] for th in case["txns"]]})
        self.m.s = set(final)
        D.cmd("checkpoint", self.name); self.verify("after a checkpoint")
        D.cmd("close", self.name); load_db(ctx, self.name)
        self.verify("after closing and reopening")
        self.finish()
    def run(self, ctx, case, rep):
        if "txns" in case: return self.run_txn(ctx, case, rep)
        bulk = [(U("b%d" % (k % 37)), U("pb%d" % (k % 5)), L("bulk %d" % k)) for k in range(case["bulk"])]
        init = [tuple(tt(x) for x in t) for t in case["init"]]
        self.start(ctx, {"init": init + bulk}); D = ctx.driver(); bulk = frozenset(bulk)
        scripts = []; ops = []
        for k, t in enumerate(case["threads"]):
            steps = []
            for o in t:
                if o[0] == 'z': steps.append("z\x1f%d" % o[1]); text = None
                elif o[0] == 'q':
                    text = "SELECT %s WHERE %s" % (" ".join("?" + v for v in rdf.group_vars(o[1])), rdf.show_group(o[1])); steps.append("q\x1f" + text)
                else:
                    text = Model().apply(o)[0]; steps.append("q\x1f" + text)
                ops.append([k, o, text])
            scripts.append("\x1e".join(steps))
        rs = D.cmd("conc", self.name, *scripts)["rs"]
        flat = [x for t in rs for x in t]
        if len(flat) != len(ops): raise Violation("conc: %d results for %d steps" % (len(flat), len(ops)))
        todo = [(x["at"][0], x["at"][1], k, o, text, x) for (k, o, text), x in zip(ops, flat) if o[0] != 'z']
        todo.sort(key=lambda e: e[0]); left = []
        for e in todo:
            b, f, k, o, text, x = e
            if x.get("exc"): raise Violation("exception %s: %s" % (x["exc"], text))
            if x["ret"] == -101:
                if not any(k2 != k and b2 < f and b < f2 and (o2[0] != 'q' or o[0] != 'q') for b2, f2, k2, o2, _, _ in todo):
                    raise Violation("refused (-101) although no conflicting operation ran: %s" % text)
                rep.label("refused"); continue
            rep.ev()
            if o[0] == 'q':
                vs = rdf.group_vars(o[1]); left.append((b, f, k, o, text, vs, collections.Counter(rows_or_violation(x, text, vs))))
            else:
                if x["ret"] < 0: raise Violation("update failed (ret %s): %s" % (x["ret"], text))
                left.append((b, f, k, o, text, None, x["ret"]))
            rep.label("op " + o[0])
            if any(k2 != k and b2 < f and b < f2 for b2, f2, k2, *_ in todo): rep.label("overlapping")
        final = frozenset(dump(ctx, self.name)) - bulk
        try: self.m.s = set(self.linear(frozenset(init), bulk, left, final)) | bulk
        except rdf.TooBig: raise Skip()
        if any(l[3][0] != 'q' or case["bulk"] for l in left) and any(a[2] != b[2] and a[0] < b[1] and b[0] < a[1] for a in left for b in left):
            rep.nontrivial(case); rep.sample({"init": len(init), "bulk": len(bulk), "threads": [[o[0] for o in t] for t in case["threads"]]})
        D.cmd("close", self.name); load_db(ctx, self.name)
        self.verify("after closing and reopening")
        self.finish()
    def linear(self, s0, bulk, ops, final):
        """The contents after a sequential execution that explains every answer and the final contents."""
        n = len(ops); answers = {}; nexts = {}
        def ans(s, i):
            key = (s, i)
            if key not in answers:
                o = ops[i]
                if o[5] is not None:
                    exp = collections.Counter(tuple(b.get(v) for v in o[5]) for b in rdf.eval_group(set(s | bulk), o[3][1]))
                    answers[key] = exp == o[6]
                else:
                    m = Model(); m.s = set(s | bulk); _, nd, ni = m.apply(o[3])
                    # a single-template update reports exactly its changes
                    ok = o[3][0] == 'mod' and bool(o[3][1]) and bool(o[3][2]) or o[6] == nd + ni
                    answers[key] = frozenset(m.s - bulk) if ok else False
            return answers[key]
        seen = set(); best = [0, None]
        stack = [(0, s0)]; end = time.process_time() + 6
        while stack:
            if time.process_time() > end: raise rdf.TooBig()
            done, s = stack.pop()
            if (done, s) in seen: continue
            seen.add((done, s))
            if done == (1 << n) - 1:
                if s == final: return s
                best = [n + 1, s]; continue
            c = bin(done).count("1")
            if c >= best[0]: best = [c, (done, s)]
            rem = [i for i in range(n) if not done >> i & 1]
            lim = min(ops[i][1] for i in rem)
            for i in reversed(rem):
                if ops[i][0] > lim: continue
                a = ans(s, i)
                if a is False: continue
                stack.append((done | 1 << i, s if a is True else a))
        hist = "\n".join("  [%d-%d] thread %d: %s -> %s" % (o[0], o[1], o[2], o[4], o[6] if o[5] is None else "%d rows %s" % (sum(o[6].values()), fmt_rows(sorted((x for x in o[6] if x not in bulk), key=repr)))) for o in ops)
        raise Violation("no sequential order explains the answers%s\n%s\n  contents: %s" % (" and the final contents" if best[0] > n else "", hist, fmt_rows(sorted(final, key=repr))))
CHECK = C15()
