"""Sessions (spec/Session.tla): parsers that are reconfigured and used again,
queries that are kept and evaluated on several documents and environments."""
from lib import *
from parsing import dec, numbers_ok

def encode(op):
    x = dict(op)
    if op["o"] == "fn":
        x["n"], x["ps"] = [ord(c) for c in op["n"]], list(op["ps"])
    elif op["o"] == "range":
        x["lo"], x["hi"] = dec(op["lo"]), dec(op["hi"])
    elif op["o"] in ("parse", "find"):
        x["t"] = [ord(c) for c in op["t"]]
    return x


def num(d):
    v = int("".join(map(str, d["d"])) or "0") * 10 ** d["e"]
    return -v if d["n"] else v


def decode(op):
    x = dict(op)
    if op["o"] == "fn":
        x["n"], x["ps"] = s(op["n"]), "".join(op["ps"])
    elif op["o"] == "range":
        x["lo"], x["hi"] = num(op["lo"]), num(op["hi"])
    elif op["o"] in ("parse", "find"):
        x["t"] = s(op["t"])
    return x


def of_machine(chk):
    r = tlc("SessionMachine", env=dict(LEN=5 if THOROUGH else 4))
    chk.model(r)
    out = [[decode(o) for o in json.loads(x[8:])] for x in r.printed if isinstance(x, str) and x.startswith("SESSION ")]
    if not out:
        raise ToolError("no sessions from the machine")
    return out


MACHINE_DOCS = ["[1,[7],1]", "[[1],0,[[2],3]]"]


def judge(chk, what, sessions, crates="ABCDLEFG", own=False):
    """sessions: [(docs, ops)]; own: wrong answers are this property's, also
    if a new process gives them too"""
    jobs = [dict(op="session", docs=d, ops=o, cr=crates) for d, o in sessions]
    res = run_jobs(jobs, timeout=60)
    recs, of = [], []
    for j, x in zip(jobs, res):
        if "crash" in x:
            chk.violation("session " + x["crash"].split()[0], "a session died: %s" % x["crash"], j)
            continue
        groups = {}
        for c, y in x["r"].items():
            if y["ok"] < 0:
                chk.violation("panic %s in a session" % c, "%s panicked in a session: %s" % (c, y["panic"][:200]), j)
                continue
            groups.setdefault((c == "G", json.dumps(y["outs"], sort_keys=True)), []).append(c)
        recs.append(dict(docs=x["docs"], ops=[encode(o) for o in j["ops"]], obs=[dict(w=cs, outs=json.loads(o)) for (_, o), cs in groups.items()]))
        of.append((j, x))
    bad, rt = validate("TraceSession", recs)
    chk.validated(len(recs), rt)
    chk.cov[what] = len(jobs)
    chk.cov["operations_" + what] = sum(len(j["ops"]) for j in jobs)
    if own:
        for i, b in bad:
            for y in b:
                j, x = of[i]
                for c in y["w"]:
                    op = j["ops"][y["at"] - 1]
                    chk.violation("%s %s with own functions" % (c, y["what"]), "%s: %s: operation %d of a session: %s" % (c, y["what"], y["at"], json.dumps(op)), dict(j, at=y["at"], crate=c))
        return
    # an answer that a new process gives as well is another property's
    wrong = [(of[i], y, c) for i, b in bad for y in b for c in y["w"]][:300]
    again = [dict(op="session", docs=j["docs"], ops=[j["ops"][k - 1] for k in sorted(y["needs"])], cr=c) for (j, x), y, c in wrong]
    for ((j, x), y, c), a, z in zip(wrong, again, run_fresh(again, 60) if again else []):
        outs = z.get("r", {}).get(c, {}).get("outs", [None])
        if outs[-1] != x["r"][c]["outs"][y["at"] - 1]:
            op = j["ops"][y["at"] - 1]
            chk.violation("%s %s in a session" % (c, y["what"]), "%s: %s: operation %d of a session: %s, in a new process it is %s" % (c, y["what"], y["at"], json.dumps(op), json.dumps(outs[-1])[:150]), dict(j, at=y["at"], crate=c))
    chk.cov["left_to_other_properties_" + what] = len(wrong)


def random_sessions(r, n):
    from gen import CUSTOM_FNS as EXT, STD_FNS, DocGen, Gen, mutate

    dg = DocGen(r, names=["a", "b", "s"])
    true = dict(STD_FNS)
    true.update(EXT)
    g = Gen(r, names=["a", "b", "s"], qnames=["a", "s"], fns=true, big=False)
    out = []
    for _ in range(n):
        docs = [json.dumps(dg.doc(3, 4, 12)) for _ in range(r.choice([2, 3, 5]))]
        texts = []
        while len(texts) < 8:
            t = g.text(g.query())
            if r.random() < 0.15:
                t = mutate(r, t, 1)
            if numbers_ok(t) and len(t) < 150:
                texts.append(t)
        for t in ("$[%d]" % r.choice([1, 5, 9, -3]), "$[%d:%d]" % (r.choice([0, 5]), r.choice([4, 9]))):
            texts.append(t)
        names = [x for x in true if any(x + "(" in t for t in texts)] or ["vv"]
        lie = {}
        ops = []
        for _ in range(r.choice([10, 25, 40])):
            k = r.random()
            if k < 0.2:
                # parser 1 is told the truth, parser 2 anything
                if r.random() < 0.6:
                    x = r.choice([x for x in names if x in EXT] or ["vv"])
                    ops.append(dict(o="fn", p=1, n=x, ps=true[x][0], r=true[x][1]))
                else:
                    x = r.choice(names + ["f"])
                    ops.append(dict(o="fn", p=2, n=x, ps="".join(r.choice("VLN") for _ in range(r.choice([1, 1, 1, 0, 2]))), r=r.choice("VLN")))
            elif k < 0.28:
                lo = r.choice([-(2**53) + 1, 0, -4, 2])
                ops.append(dict(o="range", p=r.choice([1, 2]), lo=lo, hi=max(lo, r.choice([2**53 - 1, 4, 8]))))
            elif k < 0.6:
                t = r.choice(texts)
                p = r.choice([1, 1, 2])
                ops.append(dict(o="parse", p=p, t=t, q=3 if p == 2 else r.choice([1, 2])))
            elif k < 0.7:
                ops.append(dict(o="find", t=r.choice(texts), e=r.choice([1, 2]), d=r.randint(1, len(docs))))
            else:
                ops.append(dict(o="eval", q=r.choice([1, 2]), e=r.choice([1, 2]), d=r.randint(1, len(docs))))
        out.append((docs, ops))
    return out
