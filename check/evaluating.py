"""Evaluations as traces for TraceEval: recording, judging, attribution."""
from lib import *
from parsing import numbers_ok, dec

STDSYNTAX = "DLEF"


class Evals:
    """A batch of (query, document): runs the evaluators and validates.

    nodes/paths: which mismatches are this property's."""

    def __init__(self, chk, props=None, paths=False, ext=False, nodes=True, cr="DLEFG"):
        self.chk = chk
        self.paths = paths
        self.nodes = nodes
        self.ext = ext
        self.cr = cr
        self.jobs = []

    def add(self, q, doc=None, text=None, **kw):
        if not numbers_ok(q):
            return False
        j = dict(op="eval", q=q, paths=self.paths, ext=self.ext, cr=self.cr)
        if text is not None:
            j["dt"] = text
        else:
            j["dt"] = json.dumps(doc)
        j.update(kw)
        self.jobs.append(j)
        return True

    def go(self, what="evaluations", batch=40000, timeout=30):
        jobs, self.jobs = self.jobs, []
        chk = self.chk
        nonempty = 0
        for k in range(0, len(jobs), batch):
            part = jobs[k : k + batch]
            res = run_jobs(part, timeout=timeout)
            recs = []
            for j, r in zip(part, res):
                if "crash" in r or "doc" not in r:
                    why = r.get("crash") or json.dumps(r.get("r"))
                    chk.violation("crash", "evaluation of %r died: %s" % (j["q"], why[:200]), j, key="all crash " + j["q"])
                    recs.append({"q": [ord(c) for c in j["q"]], "ext": False, "doc": [{"t": "z"}], "obs": [], "x": []})
                    continue
                groups = {}
                for c, x in r["r"].items():
                    if x["ok"] < 0:
                        chk.violation("panic " + c, "evaluator %s panicked on %r, %s: %s" % (c, j["q"], j["dt"][:200], x["panic"][:200]), j, key="%s panic %s" % (c, j["q"]))
                        continue
                    o = {"ok": x["ok"], "ids": x.get("ids", []), "paths": x.get("paths", [])}
                    groups.setdefault((c == "G", json.dumps(o)), (o, []))[1].append(c)
                obs = [dict(o, w=w) for o, w in groups.values()]
                if any(o["ids"] for o in obs):
                    nonempty += 1
                recs.append({"q": r["q"], "ext": bool(j["ext"]), "doc": r["doc"], "obs": obs, "x": [{"lo": dec(j["lo"]), "hi": dec(j["hi"])}] if "lo" in j else []})
            bad, rt = validate("TraceEval", recs)
            chk.validated(len(recs), rt)
            for i, b in bad:
                for y in b:
                    if y["what"] == "different paths" and not self.paths:
                        continue
                    if y["what"] == "different nodes" and not self.nodes:
                        continue
                    if y["what"] == "answers an invalid query":
                        # acceptance is the parsers' property
                        continue
                    for c in y["w"]:
                        j = part[i]
                        chk.violation(
                            "%s %s" % (c, y["what"]),
                            "evaluator %s: %s: %r on %s: got %s" % (c, y["what"], j["q"], j["dt"][:300], json.dumps(res[i]["r"].get(c))[:300]),
                            dict(j, outcome=res[i]["r"].get(c), expected=y["want"], doc=res[i]["doc"]),
                            key="%s %s %s" % (c, y["what"], j["q"]),
                        )
        chk.cov[what] = chk.cov.get(what, 0) + len(jobs)
        chk.cov["nonempty_" + what] = chk.cov.get("nonempty_" + what, 0) + nonempty
        for j in jobs[:: max(1, len(jobs) // 3)][:2]:
            chk.sample({"query": j["q"], "document": j["dt"][:300]})
