"""Checks of state: C13 C16 C17 C18 C20."""
import itertools
from lib import *
import lib
from gen import *
from evaluating import Evals
from checks_eval import ASSUME


# ---------------------------------------------------------------- persistent lists
def cons_histories(chk, what, hs, regs, brief=False):
    jobs = [dict(op="cons", ops=h, regs=regs, brief=brief) for h in hs]
    res = run_jobs(jobs, timeout=60)
    recs, of = [], []
    for j, x in zip(jobs, res):
        groups = {}
        if "crash" in x:
            chk.violation("crash", "the process died (%s) in a history of list operations" % x["crash"], j)
            continue
        for c, o in x["r"].items():
            if "panic" in o:
                chk.violation("panic " + c, "list operation panicked: %s" % o["panic"], j)
                continue
            groups.setdefault(json.dumps(o), (o, []))[1].append(c)
        for o, w in groups.values():
            recs.append(dict(o, ops=j["ops"], regs=regs, brief=brief, w=w))
            of.append(j)
    bad, rt = validate("TraceCons", recs)
    chk.validated(len(recs), rt)
    chk.cov[what] = len(jobs)
    chk.cov["operations_" + what] = sum(len(j["ops"]) for j in jobs)
    for i, b in bad:
        for y in b:
            for c in y["w"]:
                chk.violation("%s %s" % (c, y["what"]), "crate %s: lists differ from sequences after operation %d (%s) of %s" % (c, y["at"], y["what"], json.dumps(of[i]["ops"])[:600]), dict(of[i], at=y["at"], obs=recs[i]["obs"][: y["at"]][-1:]))
    if hs:
        chk.sample({"history": json.dumps(hs[len(hs) // 2])[:400]})


def c18():
    chk = Check("C18")
    chk.assumptions = ["the conslist modules of two crates are compiled into the harness by path; elements count how many of them are alive"]
    r = chk.rng
    t = tlc("ConsListMachine", env=dict(DEPTH=4 if THOROUGH else 3))
    chk.model(t)
    hs = [json.loads(x[8:]) for x in t.printed if isinstance(x, str) and x.startswith("HISTORY ")]
    if not hs:
        raise ToolError("no histories")
    chk.cov["histories_of_the_machine"] = len(hs)
    cons_histories(chk, "small_histories", hs if THOROUGH else r.sample(hs, min(len(hs), 12000)), 3)

    def history(regs, n, vals):
        on = set()
        h = []
        for _ in range(n):
            k = r.randint(1, regs)
            if not on or r.random() < 0.06:
                h.append(r.choice([dict(op="new", r=k), dict(op="default", r=k), dict(op="collect", r=k, xs=[r.choice(vals) for _ in range(r.choice([0, 1, 2, 5, 20]))])]))
                on.add(k)
                continue
            s_ = r.choice(sorted(on))
            x = r.random()
            if x < 0.4:
                h.append(dict(op="append", r=k, s=s_, x=r.choice(vals)))
            elif x < 0.5:
                h.append(dict(op="tail", r=k, s=s_))
            elif x < 0.65:
                h.append(dict(op="tailn", r=k, s=s_, n=r.choice([0, 1, 2, 3, 5, 19, 20, 21, 1000])))
            elif x < 0.8:
                h.append(dict(op="lastn", r=k, s=s_, n=r.choice([0, 1, 2, 3, 5, 19, 20, 21, 1000])))
            elif x < 0.9:
                h.append(dict(op="clone", r=k, s=s_))
            elif k in on:
                h.append(dict(op="drop", r=k))
                on.discard(k)
                continue
            else:
                h.append(dict(op="new", r=k))
            on.add(k)
        return h

    hs = [history(r.choice([2, 3, 4]), r.choice([8, 15, 30]), r.choice([[1], [1, 2], [1, 2, 3, 9]])) for _ in range(N(1500, 20000))]
    cons_histories(chk, "random_histories", [h for h in hs], 4)
    # long lists: <<n, .., 1>>
    long = []
    for n in (100000, 300000, 1000000):
        for _ in range(N(3, 10)):
            h = [dict(op="count", r=1, n=n), dict(op="clone", r=2, s=1)]
            for _ in range(12):
                k, s_ = r.randint(1, 4), r.choice([1, 2])
                h.append(r.choice([dict(op="tail", r=3, s=s_), dict(op="tailn", r=k, s=s_, n=r.choice([0, 1, n // 2, n - 1, n, n + 1])), dict(op="lastn", r=k, s=s_, n=r.choice([0, 1, n // 2, n - 1, n, n + 1])), dict(op="clone", r=3, s=s_), dict(op="count", r=s_, n=r.choice([n, 1000]))]))
            h += [dict(op="drop", r=k) for k in r.sample([1, 2], 2)]
            long.append(h)
    cons_histories(chk, "long_lists", long, 4, brief=True)
    # the locations of nodes keep their value while the lists they share cells with go away
    E = Evals(chk, paths=True, nodes=False, cr="FG")
    dg = DocGen(r, names=["a", "b", "c"])
    for k in range(N(500, 8000)):
        E.add(r.choice(["$..*", "$..a", "$..[0]", "$.*.*", "$..[*,0]", "$[*]..*", "$..[?@.a]", "$..[::-1]"]), dg.doc(5, 4, 60), keep=r.randint(1, 1 << 40))
    E.go("kept_locations")
    chk.finish()


# ---------------------------------------------------------------- lazy iterators
ITERQ = ["$", "$.*", "$[*]", "$..*", "$..a", "$[0]", "$.a", "$[?@]", "$[::-1]", "$..[0]", "$.*.*", "$..[?@.a]", "$[*,0]", "$['a','b']", "$[?@.a==1]", "$.zz", "$..*..*", "$[1:]", "$..[*,*]", "$[?@[?@>0]]", "$[?count(@.*)>0]", "$..[::-1]", "$[0,0,0]", "$[?$.a]"]
ITERD = ['[1,[2,3],{"a":1}]', '{"a":[1,2],"b":{"a":3}}', "[]", "1", '[[[]],[{"a":[1]}]]', '{"a":{"a":{"a":1}},"b":[1,2,3]}', "[0,1,2,3,4,5]", '[{"a":1},{"a":2},{"b":1}]']


def iter_traces(chk, what, jobs):
    res = run_jobs(jobs, timeout=60)
    recs, of = [], []
    for j, x in zip(jobs, res):
        if "crash" in x or "panic" in x["r"]:
            chk.violation("crash", "iterators died (%s): %r on %s, %s" % (x.get("crash") or x["r"]["panic"], j["qs"], j["dt"][:200], json.dumps(j["acts"])[:300]), j)
            continue
        recs.append(dict(doc=x["doc"], qs=x["qs"], slots=j["slots"], acts=j["acts"], outs=x["r"]["outs"], kept=x["r"]["kept"]))
        of.append(j)
    bad, rt = validate("TraceIters", recs)
    chk.validated(len(recs), rt)
    chk.cov[what] = len(jobs)
    chk.cov["actions_" + what] = sum(len(j["acts"]) for j in jobs)
    for i, b in bad:
        j = of[i]
        k = b["at"]
        if k == 0:
            chk.violation("nodes change", "nodes changed after their iterator was dropped: %r on %s" % (j["qs"], j["dt"][:200]), j)
        else:
            a = j["acts"][k - 1]
            chk.violation("iterator " + a["a"], "action %d (%s) of %s gave %s for %r on %s" % (k, a["a"], json.dumps(j["acts"])[:400], json.dumps(recs[i]["outs"][k - 1])[:200], j["qs"], j["dt"][:300]), dict(j, at=k, got=recs[i]["outs"][k - 1]))
    if jobs:
        chk.sample({k: v for k, v in jobs[len(jobs) // 2].items() if k in ("qs", "dt", "acts")})


# adaptors and reductions that take the iterator by value
OWNED = [("collect", 0), ("fold", 0), ("sum", 0), ("end", 0), ("map", 1), ("map", 3), ("map", 100), ("parts", 0), ("parts", 2), ("max", 0), ("min", 0), ("min", 2)]


def c16():
    chk = Check("C16")
    chk.assumptions = ASSUME + ["the adaptors of the standard library consume what their documentation says"]
    r = chk.rng
    # small scope: all schedules of two iterators
    cases = [(ITERD[0], "$..*", "$.*"), (ITERD[1], "$..a", "$.a.*"), (ITERD[1], "$..*", "$..*"), (ITERD[7], "$[?@.a]", "$[::-1]"), (ITERD[2], "$.*", "$"), (ITERD[4], "$..[*]", "$[*][*]")]
    docs = run_jobs([dict(op="eval", q="$", dt=d, cr="D") for d, _, _ in cases])
    cps = lambda t: [ord(c) for c in t]
    p = write_trace([{"doc": x["doc"], "q1": cps(a), "q2": cps(b)} for x, (_, a, b) in zip(docs, cases)], "cases")
    t = tlc("LazyIter", env=dict(CASES=p, DEPTH=8 if THOROUGH else 6))
    chk.model(t)
    jobs = []
    for x in t.printed:
        if isinstance(x, str) and x.startswith("SCHEDULE "):
            h = json.loads(x[9:])
            d, a, b = cases[h["c"] - 1]
            jobs.append(dict(op="iters", dt=d, qs=[a, b], slots=2, acts=h["acts"]))
    if not jobs:
        raise ToolError("no schedules")
    chk.cov["schedules_of_the_machine"] = len(jobs)
    iter_traces(chk, "small_schedules", jobs if len(jobs) < 60000 else r.sample(jobs, 60000))
    # adaptors, singly, at every position
    jobs = []
    for d in ITERD:
        for q in ITERQ:
            for a, k in [("nth", 0), ("nth", 1), ("nth", 3), ("take", 0), ("take", 2), ("skip", 0), ("skip", 2), ("step", 1), ("step", 2), ("peek", 0), ("rest", 0), ("for", 2), ("fuse", 0), ("count", 0), ("last", 0), ("hint", 0)]:
                for pre in (0, 1, 2) if THOROUGH else (r.choice([0, 1]), 2):
                    nx = [dict(a="next", i=1, k=0)]
                    jobs.append(dict(op="iters", dt=d, qs=[q], slots=1, text=r.random() < 0.5, acts=[dict(a="new", i=1, k=1)] + nx * pre + [dict(a="hint", i=1, k=0), dict(a=a, i=1, k=k), dict(a="hint", i=1, k=0)] + nx * 2 + [dict(a="rest", i=1, k=0)] + nx * 2))
                for a, k in [("find", 0), ("find", 2), ("pos", 0), ("pos", 1), ("any", 0), ("any", 2), ("all", 0), ("all", 1), ("tfold", 0), ("tfold", 2)]:
                    for pre in (0, 1, 3):
                        nx = [dict(a="next", i=1, k=0)]
                        jobs.append(dict(op="iters", dt=d, qs=[q], slots=1, text=r.random() < 0.5, acts=[dict(a="new", i=1, k=1)] + nx * pre + [dict(a=a, i=1, k=k)] * 2 + [dict(a="hint", i=1, k=0)] + nx * 2 + [dict(a="rest", i=1, k=0)] + nx))
    iter_traces(chk, "adaptors", r.sample(jobs, min(len(jobs), N(3500, 40000))))
    # used up by value, at every position
    jobs = []
    for d in ITERD:
        for q in ITERQ:
            for a, k in OWNED:
                pre = r.choice([0, 1, 2, 3, 9])
                nx = [dict(a="next", i=1, k=0)]
                jobs.append(dict(op="iters", dt=d, qs=[q], slots=2, text=r.random() < 0.5, acts=[dict(a="new", i=1, k=1), dict(a="new", i=2, k=1)] + nx * pre + [dict(a="next", i=2, k=0), dict(a=a, i=1, k=k), dict(a=r.choice(OWNED)[0], i=2, k=k)]))
    iter_traces(chk, "by_value", r.sample(jobs, min(len(jobs), N(2500, 20000))))
    # random schedules of several iterators over random documents
    g = Gen(r, names=["a", "b", "c"], qnames=["a", "b"], big=False)
    dg = DocGen(r, names=["a", "b", "c"])
    from parsing import numbers_ok

    jobs = []
    while len(jobs) < N(2500, 40000):
        qs = []
        while len(qs) < 3:
            q = r.choice(ITERQ) if r.random() < 0.5 else g.text(g.query())
            if numbers_ok(q):
                qs.append(q)
        n = r.choice([2, 3, 4])
        acts, on = [], set()
        for _ in range(r.choice([6, 12, 25, 60])):
            i = r.randint(1, n)
            if i not in on:
                acts.append(dict(a="new", i=i, k=r.randint(1, 3)))
                on.add(i)
            else:
                a = r.choice(["next"] * 10 + ["drop", "new", "find", "pos", "any", "all", "tfold", r.choice(OWNED)[0], "nth", "take", "skip", "step", "peek", "rest", "for", "fuse", "count", "last", "hint", "hint"])
                k = {"new": r.randint(1, 3), "step": r.randint(1, 3), "for": r.randint(1, 4)}.get(a, r.choice([0, 0, 1, 2, 4]))
                if a == "drop" or a in dict(OWNED):
                    on.discard(i)
                acts.append(dict(a=a, i=i, k=k))
        jobs.append(dict(op="iters", dt=json.dumps(dg.doc(4, 4, 40)), qs=qs, slots=n, text=r.random() < 0.5, acts=acts))
    iter_traces(chk, "random_schedules", jobs)
    # long node lists, and long stretches without a node
    from growing import FAMILIES, WIDE, NODES, grown, sized

    grown(chk, [(f, n, c) for f in WIDE for n in N([1100, 140000], [300, 1100, 5000, 20000, 300000]) for c in "EI"] + sized([f for f, x in FAMILIES.items() if x["ok"] and x["grow"] == "nest"], "EI"), small=True, only=NODES)
    chk.finish()


# ---------------------------------------------------------------- histories
def blocks(r, n, size=50):
    """n blocks of elements {s, p, q}, all patterns distinct; block 0: invalid ones"""
    from regexes import RGen, bad_patterns

    rg = RGen(r)
    seen = set()
    pats = []
    long = "a" * 40 + "b{2}" + "c" * 40

    def add(p, subs):
        if p not in seen:
            seen.add(p)
            pats.append((p, subs))

    k = 0
    while len(pats) < n * size:
        k += 1
        x = k % 6
        if x == 0:  # long common beginning
            w = "".join(r.choice("xyz") for _ in range(4))
            add(long + w, ["a" * 40 + "bb" + "c" * 40 + w, "a" * 40 + "bb" + "c" * 40 + w + "x"])
        elif x == 1:  # same characters, other order or case
            w = [r.choice("aAbB") for _ in range(5)]
            r.shuffle(w)
            w = "".join(w)
            add(w, [w, w.lower(), w.upper(), "x" + w, w[::-1]])
        elif x == 2:
            w = "".join(r.choice("ab") for _ in range(3))
            add(w[0] + "|" + w[1:] + "{%d}" % r.randint(1, 3) + r.choice("cde"), [w[0], w[0] + "x", w[1:] + "c", w])
        else:
            p = rg.pattern()
            if len(p) < 30:
                add(p, rg.subjects(p)[:6])
    bad = [p for p in bad_patterns()][:size]

    def el(p, subs):
        a, b = r.choice(subs), r.choice(subs)
        if r.random() < 0.4:
            a = "z" + a
        return {"s": a, "p": p, "q": [{"s": b, "p": p}]}

    r.shuffle(pats)
    out = [[el(p, ["a", "b", p]) for p in bad]]
    for b in range(n):
        out.append([el(*x) for x in pats[b * size : (b + 1) * size]])
    return out


FN = {"m": "match", "s": "search"}


def call(f, g="-"):
    return "$[?%s(@.s,@.p)]" % FN[f] if g == "-" else "$[?%s(@.s,value(@.q[?%s(@.s,@.p)].p))]" % (FN[f], FN[g])


def judge_histories(chk, what, hists, timeout=120):
    """hists: lists of eval jobs, each run in a process of its own; an answer is
    judged once for all histories it occurred in"""
    jobs = [dict(op="seq", jobs=h) for h in hists]
    res = run_fresh(jobs, timeout)
    seen = {}
    for n, (h, x) in enumerate(zip(hists, res)):
        if "crash" in x:
            chk.violation("history " + x["crash"].split()[0], "a history of %d calls died: %s" % (len(h), x["crash"]), dict(op="seq", jobs=h))
            continue
        for k, (j, y) in enumerate(zip(h, x["r"])):
            key = (j["q"], j["dt"], bool(j.get("ext")))
            seen.setdefault(key, (y, {}))
            for c, o in y["r"].items():
                if o["ok"] < 0:
                    chk.violation("panic " + c, "%s panicked in a history at call %d: %r: %s" % (c, k, j["q"], o["panic"][:200]), dict(op="seq", jobs=h[: k + 1]))
                    continue
                seen[key][1].setdefault((json.dumps({"ok": o["ok"], "ids": o.get("ids", []), "paths": o.get("paths", [])}), c), (n, k))
    judge_answers(chk, seen, lambda w: dict(op="seq", jobs=hists[w[0]][: w[1] + 1]), lambda w: "call %d of a history" % w[1])
    chk.cov[what] = len(hists)
    chk.cov["calls_" + what] = sum(map(len, hists))


def judge_answers(chk, seen, replay, where):
    recs, of = [], []
    for (q, dt, ext), (y, os) in seen.items():
        groups = {}
        for (o, c), w in os.items():
            groups.setdefault((o, c == "G"), []).append((c, w))
        recs.append({"q": y["q"], "ext": ext, "x": [], "doc": y["doc"], "obs": [dict(json.loads(o), w=[c for c, _ in ws]) for (o, _), ws in groups.items()]})
        of.append((q, dt, ext, groups))
    bad, rt = validate("TraceEval", recs)
    chk.validated(sum(len(os) for _, os in seen.values()), rt)
    # a wrong answer that a new process gives as well is another property's
    wrong = []
    for i, b in bad:
        q, dt, ext, groups = of[i]
        for y in b:
            for (o, g), ws in groups.items():
                if json.loads(o)["ids"] != y["want"] or y["what"] != "different nodes":
                    wrong += [(q, dt, ext, c, o, w) for c, w in ws if c in y["w"]]
    wrong = wrong[:300]
    for (q, dt, ext, c, o, w), x in zip(wrong, run_fresh([dict(op="eval", q=q, dt=dt, ext=ext, cr=c) for q, dt, ext, c, _, _ in wrong], 60) if wrong else []):
        y = x.get("r", {}).get(c, {"ok": -1})
        if json.dumps({"ok": y["ok"], "ids": y.get("ids", []), "paths": y.get("paths", [])}) != o:
            chk.violation("%s differs" % c, "evaluator %s answers differently from a new process (%s): %r on %s: %s" % (c, where(w), q, dt[:200], o[:200]), replay(w))
    for (q, dt, ext), (y, os) in seen.items():
        per = {}
        for (o, c), w in os.items():
            per.setdefault(c, []).append((o, w))
        for c, l in per.items():
            if len(l) > 1:
                chk.violation("%s varies" % c, "evaluator %s gives %d different answers to %r on %s" % (c, len(l), q, dt[:200]), replay(l[-1][1]))


def c13():
    chk = Check("C13")
    chk.assumptions = ASSUME + ["threads are scheduled by the operating system: the model explores their interleavings, the real runs sample them", "an answer that a new process gives as well is left to the property it is about"]
    r = chk.rng
    for cap, pats, threads, calls in [(1, 2, 2, 4), (2, 2, 3, 3)] if THOROUGH else [(1, 2, 2, 3)]:
        chk.model(tlc("RegexCache", cfg="RegexCacheLive", env=dict(CAP=cap, PATS=pats, THREADS=threads, CALLS=calls, NESTED=1)))
    hs = []
    for pats, calls, nested in [(3, 4, 0), (2, 3, 1)] + ([(4, 4, 0), (3, 5, 0), (3, 3, 1)] if THOROUGH else []):
        t = tlc("RegexCache", env=dict(CAP=2, PATS=pats, THREADS=1, CALLS=calls, NESTED=nested))
        chk.model(t)
        hs += [json.loads(x[8:]) for x in t.printed if isinstance(x, str) and x.startswith("HISTORY ")]
    if not hs:
        raise ToolError("no histories")
    chk.cov["histories_of_the_machine"] = len(hs)
    bl = [json.dumps(b) for b in blocks(r, 4)]
    hs = r.sample(hs, min(len(hs), N(1200, 12000)))
    ev = lambda q, dt, ext=False: dict(op="eval", q=q, dt=dt, ext=ext, cr="DLEFG")
    judge_histories(chk, "small_histories", [[ev(call(f, g), bl[p]) for f, p, g in h] for h in hs])
    chk.sample({"history": hs[0]})

    # long histories: every kind of query, more patterns than any cache holds
    from parsing import numbers_ok
    from gen import mutate

    big = blocks(r, 6)
    pool = [x for b in big for x in b]
    g = Gen(r, names=["a", "b", "s", "p"], qnames=["a", "s"], big=False)
    dg = DocGen(r, names=["a", "b", "s"])
    docs = [json.dumps(dg.doc(3, 4, 12)) for _ in range(12)]
    items = []
    for _ in range(N(500, 4000)):
        x = r.random()
        if x < 0.5:
            e = json.dumps(r.sample(pool, r.choice([1, 3, 10, 30])))
            items.append(ev(call(r.choice("ms"), r.choice("--ms")), e))
        elif x < 0.6:
            p = r.choice(pool)["p"]
            if not any(c in p for c in "'\\") and p.isprintable():
                items.append(ev("$[?%s(@.s,'%s')]" % (FN[r.choice("ms")], p), json.dumps(r.sample(pool, 5))))
        else:
            q = g.text(g.query())
            if r.random() < 0.3:
                q = mutate(r, q)
            if numbers_ok(q):
                items.append(ev(q, r.choice(docs), r.random() < 0.3))
    hists = []
    for _ in range(N(150, 2000)):
        hists.append([dict(r.choice(items)) for _ in range(r.choice([20, 100, 300]))])
    # the same call over and over, and all patterns in turn
    for _ in range(N(8, 60)):
        it = r.choice(items)
        hists.append([dict(it) for _ in range(150)])
        one = [ev(call(f, gg), json.dumps([x])) for x in pool for f in "ms" for gg in "-"]
        r.shuffle(one)
        hists.append((one[:260] * 2)[:500])
    judge_histories(chk, "long_histories", hists)

    # sessions: parsers and queries that are used again and again
    import sessions

    ss = sessions.of_machine(chk)
    chk.cov["sessions_of_the_machine"] = len(ss)
    ss = [(sessions.MACHINE_DOCS, o) for o in r.sample(ss, min(len(ss), N(4000, 60000)))]
    sessions.judge(chk, "small_sessions", ss)
    sessions.judge(chk, "long_sessions", sessions.random_sessions(r, N(500, 8000)))
    chk.sample({"session": ss[0][1]})
    # threads
    jobs = []
    for k in range(N(24, 300)):
        n = r.choice([2, 4, 8, 16])
        ds, its = [], []
        for _ in range(r.choice([1, 2, 6, 20])):
            it = r.choice(items)
            if not it["ext"]:
                its.append((it["q"], len(ds)))
                ds.append(it["dt"])
        for _ in range(r.choice([1, 4])):
            e = json.dumps(r.sample(pool, r.choice([2, 15, 40])))
            for f in "ms":
                for gg in "-ms":
                    its.append((call(f, gg), len(ds)))
            ds.append(e)
        tasks = [[dict(q=q, d=d, c=r.choice(["DLEFG", "D", "E", "F", "G"])) for q, d in (r.choice(its) for _ in range(r.choice([20, 60])))] for _ in range(n)]
        jobs.append(dict(op="threads", docs=ds, tasks=tasks))
    res = run_fresh(jobs, 120)
    seen = {}
    for n, (j, x) in enumerate(zip(jobs, res)):
        if "crash" in x:
            chk.violation("threads " + x["crash"].split()[0], "%d threads died: %s" % (len(j["tasks"]), x["crash"]), j)
            continue
        for t, rs in zip(j["tasks"], x["r"]["res"]):
            for a, y in zip(t, rs or []):
                key = (a["q"], j["docs"][a["d"]], False)
                seen.setdefault(key, ({"q": [ord(c) for c in a["q"]], "doc": x["r"]["docs"][a["d"]]}, {}))
                for c, o in y.items():
                    if o["ok"] < 0:
                        chk.violation("panic %s in a thread" % c, "%s panicked in a thread: %r: %s" % (c, a["q"], o["panic"][:200]), j)
                        continue
                    seen[key][1].setdefault((json.dumps({"ok": o["ok"], "ids": o.get("ids", []), "paths": []}), c), (n, 0))
            if rs is None:
                chk.violation("thread died", "a thread died", j)
    judge_answers(chk, seen, lambda w: jobs[w[0]], lambda w: "threads")
    chk.cov["concurrent_runs"] = len(jobs)
    chk.cov["concurrent_calls"] = sum(len(t) for j in jobs for t in j["tasks"])
    # very many calls in one process
    jobs = []
    for c in "DLEFG":
        for _ in range(N(1, 4)):
            ds, its = [], []
            for it in r.sample(items, 60):
                if not it["ext"] and len(it["dt"]) < 1500:
                    its.append(dict(q=it["q"], d=len(ds)))
                    ds.append(it["dt"])
            for e in r.sample(pool, N(150, 250)):
                its += [dict(q=call(f, "-"), d=len(ds)) for f in "ms"]
                ds.append(json.dumps([e]))
            jobs.append(dict(op="soak", c=c, docs=ds, items=its, n=N(70000, 600000), seed=r.randrange(1 << 40)))
    res = run_fresh(jobs, 600)
    seen = {}
    for n, (j, x) in enumerate(zip(jobs, res)):
        if "crash" in x:
            chk.violation("soak " + x["crash"].split()[0], "the process died in %d calls of crate %s: %s" % (j["n"], j["c"], x["crash"]), dict(j, docs=j["docs"][:5]))
            continue
        for a, os in zip(j["items"], x["r"]["res"]):
            for o, k in os:
                if o["ok"] < 0:
                    chk.violation("panic %s after many calls" % j["c"], "%s panicked at call %d: %r: %s" % (j["c"], k, a["q"], o["panic"][:200]), a)
                    continue
                key = (a["q"], j["docs"][a["d"]], False)
                seen.setdefault(key, ({"q": [ord(y) for y in a["q"]], "doc": x["r"]["docs"][a["d"]]}, {}))
                seen[key][1].setdefault((json.dumps({"ok": o["ok"], "ids": o.get("ids", []), "paths": []}), j["c"]), (n, k))
    judge_answers(chk, seen, lambda w: dict(jobs[w[0]], docs=[]), lambda w: "call %d of one process" % w[1])
    chk.cov["calls_of_long_runs"] = sum(j["n"] for j in jobs)
    chk.finish()


# ---------------------------------------------------------------- no panic, abort or hang
def calls(chk, what, jobs, crates):
    """calls that may only end in a query (or nodes) or an error"""
    recs, of = [], []
    res = run_jobs(jobs, timeout=60)
    for j, x in zip(jobs, res):
        outs = {}
        if "crash" in x:
            outs[(x["crash"].split()[0], "")] = crates
        else:
            for c, y in x["r"].items():
                re_ok = y["ok"] != 1 or "re" not in y or y["re"]["ok"] == 1 or j["op"] != "parse"
                o = ("panic" if y["ok"] < 0 or "panic" in y else "", "query" if y["ok"] == 1 and re_ok else "error" if y["ok"] == 0 else "other")
                outs.setdefault(o, []).append(c)
        for (d, o), w in outs.items():
            recs.append(dict(k="call", died=d, out=o, w=w))
            of.append((j, x))
    bad, rt = validate("TraceScale", recs, extra=dict(FAMILIES=os.path.join(lib._scratch(), "families.json")))
    chk.validated(len(recs), rt)
    chk.cov[what] = len(jobs)
    for i, b in bad:
        j, x = of[i]
        for y in b:
            for c in recs[i]["w"]:
                o = x.get("r", {}).get(c, x.get("crash")) if isinstance(x.get("r", {}), dict) else x
                chk.violation("%s %s" % (c, y["what"]), "%s: %s: %r %s: %s" % (c, y["what"], j["q"][:300], j.get("dt", "")[:200], json.dumps(o)[:300]), dict(j, outcome=o), key="%s %s %s" % (y["what"], c, j["q"]))
    for j in jobs[:: max(1, len(jobs) // 2)][:2]:
        chk.sample({"query": j["q"][:200], "document": j.get("dt", "")[:200]})


EXTREME = ["0", "-0", "-0.0", "1", "-1", "9007199254740991", "-9007199254740993", "2147483648", "-2147483649", "4294967296", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "1e308", "-1e308", "1.7976931348623157e308", "5e-324", "1e-400", "0.1", "1e20", "123456789012345678901234567890", "-123456789012345678901234567890"]
I64 = [0, 1, -1, 2, -2, 3, -3, 2**31, -(2**31), 2**53, -(2**53), 2**62, -(2**62), 2**63 - 2, 2**63 - 1, -(2**63) + 1, -(2**63)]


def unicode_text(r, n):
    x = r.random()
    if x < 0.3:
        return "".join(chr(r.choice([r.randint(0, 127), r.randint(128, 0x7FF), r.randint(0x800, 0xD7FF), r.randint(0xE000, 0xFFFF), r.randint(0x10000, 0x10FFFF)])) for _ in range(n))
    al = list("$@.[]*?:,!()&|=<>'\"\\-+eE019 \n\tab_u") + ["é", "😀", "\u2028", "\ud7ff", "\ue000", "\\u00", "\\uD83D", "\\uDE00", "true", "null", "count(", "&&", "||", "..", "$.", "[?@", "]]"]
    return "".join(r.choice(al) for _ in range(n))


def c17():
    from growing import FAMILIES, SIZES, DEEP, grown

    chk = Check("C17")
    chk.assumptions = ["calls run on a thread with 8 MB of stack, in a debug build with overflow checks", "an answer is awaited for 100 s (60 s for small inputs)"]
    r = chk.rng
    plan = []
    for f, x in FAMILIES.items():
        for n in (DEEP if THOROUGH else SIZES)[x["grow"]]:
            for c in "ABCDLEFG":
                if n >= x["frm"] and not (c == "C" and n > 30000 and x["ok"] and f in ("chain into a scalar", "descendants of a scalar")):
                    plan.append((f, n, c))
        plan += [(f, n, c) for c, n in x["known"]]
    grown(chk, plan)

    # whatever text, whatever parser
    g, gx = Gen(r), Gen(r, ext=True)
    texts = set()
    while len(texts) < N(9000, 200000):
        x = r.random()
        if x < 0.3:
            texts.add(unicode_text(r, r.choice([0, 1, 2, 3, 5, 8, 20, 60])))
        else:
            k = gx if x < 0.4 else g
            t = k.text(k.query())
            for _ in range(r.choice([0, 1, 1, 2, 4])):
                t = mutate(r, t)
            if r.random() < 0.2:
                t = t[: r.randint(0, len(t))]
            if r.random() < 0.15:
                i = r.randint(0, len(t))
                t = t[:i] + unicode_text(r, r.choice([1, 2, 4])) + t[i:]
            if r.random() < 0.1:
                t = "$[?@" + unicode_text(r, 2) + t[r.randint(0, len(t)) :]
            texts.add(t)
    calls(chk, "texts", [dict(op="parse", q=t, bare=True) for t in sorted(texts)], "ABCDEFG")
    # the same with no limits on index integers, and with odd ones
    odd = []
    for t in r.sample(sorted(texts), N(1500, 20000)):
        lo, hi = r.choice([(-(2**63), 2**63 - 1), (0, 0), (1, 0), (2**63 - 1, -(2**63)), (-1, 1)])
        odd.append(dict(op="parse", q=t, bare=True, lo=lo, hi=hi))
    for i in I64 + [2**63, -(2**63) - 1, 2**64, 10**30, -(10**30)]:
        for t in ("$[%d]", "$[%d:]", "$[:%d]", "$[::%d]", "$[?@[%d]==1]"):
            odd.append(dict(op="parse", q=t % i, bare=True, lo=-(2**63), hi=2**63 - 1))
    calls(chk, "texts_with_index_ranges", odd, "ABCDEFG")

    # evaluation with extreme numbers everywhere
    ev = []
    for _ in range(N(4000, 60000)):
        d = DocGen(r).doc(3, 4, 14)
        dt = json.dumps(d)
        dt = re.sub(r"(?<=[\[,: ])-?[0-9][0-9.eE+-]*(?=[,\]} ])", lambda m: r.choice(EXTREME) if r.random() < 0.6 else m.group(0), dt)
        q = gx.text(gx.query(), implicit=r.random() < 0.2) if r.random() < 0.3 else g.text(g.query())
        q = re.sub(r"(?<=[=<>( ])-?[0-9]+(?=[\]&|,) ])", lambda m: r.choice(EXTREME) if r.random() < 0.5 else m.group(0), q)
        ev.append(dict(op="eval", q=q, dt=dt))
    for _ in range(N(2500, 30000)):
        n = r.choice([0, 1, 2, 3, 7])
        v = ["" if r.random() < 0.2 else str(r.choice(I64)) for _ in range(3)]
        t = r.choice(["$[%s]" % ":".join(v), "$[%s:%s]" % (v[0], v[1]), "$[%s]" % (v[0] or "0"), "$..[%s]" % ":".join(v), "$[?count(@[%s])>0]" % ":".join(v), "$[?@[%s]==@[%s]]" % (v[0] or "0", v[1] or "-1")])
        ev.append(dict(op="eval", q=t, dt=json.dumps(r.choice([list(range(n)), [list(range(n))] * 2])), lo=-(2**63), hi=2**63 - 1))
    for a in EXTREME:
        for b in r.sample(EXTREME, 6):
            for op in ("==", "<", ">="):
                ev.append(dict(op="eval", q="$[?@%s%s]" % (op, a), dt="[%s,[%s]]" % (b, a)) if "e-400" not in a + b else dict(op="eval", q="$", dt="1"))
                ev.append(dict(op="eval", q="$[?@.a%s@.b]" % op, dt='[{"a":%s,"b":%s}]' % (a, b)))
        ev.append(dict(op="eval", q="$.a[$.i]", dt='{"a":[1,2,3],"i":%s}' % a))
        ev.append(dict(op="eval", q="$[?length(@)==%s||count(@.*)<%s||value(@)==%s]" % (a, a, a), dt="[1,[%s]]" % a))
    calls(chk, "evaluations", ev, "DLEFG")
    chk.finish()


# ---------------------------------------------------------------- tokens and spans
class Lexes:
    def __init__(self, chk):
        self.chk = chk
        self.qs = {}

    def add(self, q):
        from parsing import numbers_ok

        if numbers_ok(q):
            self.qs[q] = None

    def go(self, what):
        chk = self.chk
        jobs = [dict(op="lex", q=q) for q in self.qs]
        self.qs = {}
        recs, of, acc = [], [], 0
        for j, x in zip(jobs, run_jobs(jobs)):
            if "crash" in x or "panic" in x["r"]:
                chk.violation("crash", "the lexer or parser died on %r: %s" % (j["q"], x.get("crash") or x["r"]["panic"]), j)
                continue
            acc += x["r"]["tree"]["ok"]
            recs.append({"q": x["q"], "r": x["r"]})
            of.append(j)
        bad, rt = validate("TraceLex", recs)
        chk.validated(len(recs), rt)
        chk.cov[what] = len(jobs)
        chk.cov["accepted_" + what] = acc
        for i, b in bad:
            for y in b:
                chk.violation(y, "%s: %r" % (y, of[i]["q"]), dict(of[i], outcome=recs[i]["r"]))
        for j in jobs[:: max(1, len(jobs) // 3)][:2]:
            chk.sample(j["q"])


WIDE = ["é", "☺", "😀", "\u0000", "\u00a0", "\U0010ffff", "\u0301", "\ufeff"]


def c20():
    from machines import sentences, strings, numbers
    from checks_parse import CONTEXTS, TOK2, SEEDS, blanks

    chk = Check("C20")
    chk.assumptions = ["spans are byte offsets into the text; they are counted in characters before they are judged, which fails for offsets inside a character", "the span of a segment is that of its first token; the span of a chain or comparison is that of its left operand; spans of quoted strings exclude the quotes (as the public tests have them)"]
    r = chk.rng
    L = Lexes(chk)
    ns = numbers(chk)
    ss = strings(chk)
    sents = ["".join(t) for t in sentences(chk)]
    for t in sents:
        L.add(t)
        if r.random() < (1 if THOROUGH else 0.3):
            L.add(mutate(r, t))
    L.go("grammar_sentences")
    # characters of several bytes anywhere
    for t in SEEDS:
        for i in range(len(t) + 1):
            for c in WIDE if THOROUGH else r.sample(WIDE, 3):
                L.add(t[:i] + c + t[i:])
                if r.random() < 0.3:
                    L.add(t[:i] + c + t[i + 1 :])
            L.add(t[:i])
    for t in SEEDS:
        # wide names and strings, so that all offsets after them are shifted
        for c in WIDE[:3]:
            L.add(t.replace("a", c).replace("v" + c + "lue", "value").replace("m" + c + "tch", "match").replace("se" + c + "rch", "search").replace("f" + c + "lse", "false"))
            L.add("$['" + c + "'].a" + c + t[1:])
            L.add("$[?@.x=='" + c + c + "',?@" + t[1:] + "]")
            L.add("$['\\" + c + "']" + t[1:])
    for t in blanks(r.sample(SEEDS, N(10, len(SEEDS)))):
        L.add(t)
    for a, b in CONTEXTS:
        for t in TOK2:
            L.add(a + t + b)
    for ctx in CONTEXTS if THOROUGH else r.sample(CONTEXTS, 3):
        for t in itertools.product(TOK2, repeat=2):
            L.add(ctx[0] + "".join(t) + ctx[1])
    for x in r.sample(ss, min(len(ss), N(800, 100000))):
        for q in "'\"":
            L.add("$[" + q + x + q + "]")
            L.add("$[?@.é==" + q + x + q + "&&count(@.*)>1]")
    for x in r.sample(ns, min(len(ns), N(800, 100000))):
        L.add("$[?@.é==" + x + "]")
        L.add("$[" + x + "]")
        L.add("$['é'," + x + ":" + r.choice(ns) + "]")
    L.go("systematic_texts")
    # all short texts over the characters that matter
    AL = "$@.[]*?:,'\"a0-1!=<>&|( )\\éE"
    for n in (1, 2):
        for t in itertools.product(AL, repeat=n):
            for a in ("", "$", "$[", "$[?", "$[?@.a"):
                L.add(a + "".join(t))
    for _ in range(N(4000, 200000)):
        L.add(r.choice(["", "$", "$[", "$[?", "$[?@.é==", "$[?f(", "$..", "$[?(", "$[?@[?"]) + "".join(r.choice(AL) for _ in range(r.randint(3, 8))))
    L.go("short_texts")
    # long tokens, long gaps and many tokens before others
    for n in N([300, 5000], [70, 130, 300, 1100, 5000, 9000]):
        for a, u, b in [("$['", "a", "'].b"), ("$[\"", "é", "\",'☺']"), ("$.", "a", ".b[0]"), ("$..", "😀", "[*]"), ("$", " ", ".a[?@.b]"), ("$[", "\n", "0 , 'é']"), ("$[?@", "\t", "==1]"), ("$[?@=='", "b", "'||@.a]"), ("$[?@==0.", "1", "]"), ("$[?f", "o", "(@)]"), ("$['", "\\n", "']x"), ("$['", "é", ""), ("$.a", "b", "'"), ("$[", "1", "]")]:
            L.add(a + u * n + b)
        L.add("$[?length(@)>1" + "0" * min(n, 280) + "e1]")  # within the range of the numbers
        for a, u, b in [("$", ".a", "['é']"), ("$[0", ",0", ",'b']"), ("$[?@.a", "&&@.b", "||@.c]"), ("$", "[?@", "]" * (n // 25) + ".a"), ("$[?", "(", "@" + ")" * (n // 25) + "]"), ("$", "[*]", ".é!"), ("$[?count(@.é)", ">1||count(@.*)", ">1]"), ("$[?nope(@", ",@", ")]")]:
            L.add(a + u * (n // 25) + b)
    L.go("long_texts")
    g = Gen(r, names=["a", "b", "é", "☺x", "😀"], qnames=["a", "é", "😀 ", "'", '"', "\\", "\n"])
    for _ in range(N(4000, 100000)):
        t = g.text(g.query())
        L.add(t)
        if r.random() < 0.6:
            L.add(mutate(r, t))
    # errors of names and types
    from checks_parse import SEEDS as _s

    fs = ["foo(@)", "length(@.*)", "count(1)", "count(@.a,@.b)", "value(@.a)", "match(@.a)", "length(@)", "nosuch('é')", "count(nope(@))", "@.*==1", "1", "'é'", "true", "match(@.a,'b')==1", "length(@.a)", "1==@..a", "!length(@)", "@.é==count(@.*)&&x(1)", "@.a==(1)", "search(@.é,bad())"]
    for f in fs:
        for a in ("$[?", "$[?@.é&&", "$['é',?(", "$.é[?!(", "$[?'é'==@.a||"):
            for b in ("]", "&&@.b]", ")]", "==1]", ",0]"):
                L.add(a + f + b)
    L.go("random_texts")
    chk.finish()


CHECKS = {"C20": c20, "C17": c17, "C13": c13, "C16": c16, "C18": c18}
