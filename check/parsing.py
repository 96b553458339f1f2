"""Parser runs as traces for TraceParse: recording, judging, attribution."""
from lib import *


def obs_of(r):
    """Group the parsers that behaved alike. Panics are returned separately."""
    groups = {}
    panics = []
    for c, x in r.items():
        if x["ok"] < 0:
            panics.append((c, x["panic"]))
            continue
        kind = x.get("kind", "")
        o = {
            "ok": x["ok"],
            "kind": "syntax" if kind == "lexer" else kind,
            "ast": [x["ast"]] if "ast" in x else [],
            "sing": [x["sing"]] if "sing" in x else [],
            "empty": [x["empty"]] if "empty" in x else [],
            "disp": [],
            "re": [],
        }
        if "re" in x and "disp" in x:
            re_ = x["re"]
            if re_["ok"] < 0:
                panics.append((c, "printed form: " + re_["panic"]))
            o["disp"] = [x["disp"]]
            o["re"] = [{"ok": re_["ok"], "ast": [re_["ast"]] if "ast" in re_ else [], "disp": re_.get("disp", [])}]
        # G alone: it has its own syntax
        key = (c == "G", json.dumps(o, sort_keys=True))
        groups.setdefault(key, (o, []))[1].append(c)
    return [dict(o, w=cs) for o, cs in groups.values()], panics


def dec(i):
    n = 1 if i < 0 else 0
    d = [int(c) for c in str(abs(i))]
    e = 0
    while d and d[-1] == 0:
        d.pop()
        e += 1
    return {"n": n, "d": d, "e": e} if d else {"n": 0, "d": [], "e": 0}


LO, HI = -(2**53) + 1, 2**53 - 1


def mode_of(job):
    if "fns" not in job and "lo" not in job:
        return []
    return [
        {
            "fns": [{"n": [ord(c) for c in f["n"]], "p": list(f["p"]), "r": f["r"]} for f in job.get("fns", [])],
            "lo": dec(job.get("lo", LO)),
            "hi": dec(job.get("hi", HI)),
        }
    ]


NUMRUN = re.compile(r"-?[0-9]+(?:\.[0-9]+)?(?:[eE][+-]?[0-9]+)?")


def numbers_ok(t):
    """Only numbers that a 64 bit integer or a double holds exactly enough for
    the shortest decimal to be the one written (see DESIGN.md, numbers)."""
    for m in NUMRUN.finditer(t):
        x = m.group()
        mant, _, ex = x.replace("E", "e").partition("e")
        digits = mant.lstrip("-").replace(".", "")
        if "." not in mant and not ex:
            if len(digits.rstrip("0") or "0") > 15 and (len(digits) > 100 or not -(2**63) <= int(mant) < 2**63):
                return False
            continue
        if len(digits.strip("0")) > 15:
            return False
        if ex and (len(ex.lstrip("+-0")) > 3 or len(ex) < 100 and abs(int(ex)) > 280):
            return False
    return True


CTRL = re.compile(r"\\u00[01]")


class Parses:
    """A batch of texts: runs them, validates the trace, reports mismatches."""

    def __init__(self, chk, focus=""):
        self.chk = chk
        self.focus = focus
        self.jobs = []
        self.seen = set()

    def add(self, q, **kw):
        key = (q, json.dumps(kw, sort_keys=True))
        if key in self.seen or not numbers_ok(q):
            return False
        self.seen.add(key)
        self.jobs.append(dict(op="parse", q=q, **kw))
        return True

    def seen_texts(self):
        return sorted({q for q, _ in self.seen})

    def go(self, what="texts", re_=False, batch=40000):
        jobs, self.jobs = self.jobs, []
        chk = self.chk
        acc = 0
        for k in range(0, len(jobs), batch):
            part = jobs[k : k + batch]
            for j in part:
                if re_:
                    j["re"] = True
            res = run_jobs(part)
            recs = []
            for j, r in zip(part, res):
                if "crash" in r:
                    chk.violation("crash", "the process died on %r: %s" % (j["q"], r["crash"]), j, key="all crash " + j["q"])
                    recs.append({"q": [ord(c) for c in j["q"]], "f": "", "x": [], "obs": []})
                    continue
                obs, panics = obs_of(r["r"])
                if any(o["ok"] for o in obs):
                    acc += 1
                for c, m in panics:
                    chk.violation("panic " + c, "parser %s panicked on %r: %s" % (c, j["q"], m[:200]), j, key="%s panic %s" % (c, j["q"]))
                recs.append({"q": r["q"], "f": self.focus, "x": mode_of(j), "obs": obs})
            bad, rt = validate("TraceParse", recs)
            chk.validated(len(recs), rt)
            for i, b in bad:
                for y in b:
                    if y["p"] != chk.prop:
                        continue
                    for c in y["w"]:
                        d = y["d"]
                        if isinstance(d, list):
                            d = "+".join(d)
                        chk.violation(
                            "%s %s %s" % (c, y["what"], d),
                            "parser %s: %s %s: %r" % (c, y["what"], d, part[i]["q"]),
                            dict(part[i], outcome=res[i]["r"].get(c)),
                            key="%s %s %s" % (c, y["what"], part[i]["q"]),
                        )
        chk.cov[what] = chk.cov.get(what, 0) + len(jobs)
        chk.cov["accepted_" + what] = chk.cov.get("accepted_" + what, 0) + acc
        for j in jobs[:: max(1, len(jobs) // 3)][:2]:
            chk.sample(j["q"])
