"""Small-scope machines: explored completely by TLC, their behaviours returned
for replay in the real code."""
from lib import *


def _run(chk, module, prefix, **env):
    r = tlc(module, env=env)
    chk.model(r)
    out = [json.loads(x[len(prefix) :]) for x in r.printed if isinstance(x, str) and x.startswith(prefix)]
    if not out:
        raise ToolError("no behaviours from " + module)
    return out


def sentences(chk):
    n = 11 if THOROUGH else 9
    return _run(chk, "Grammar", "SENTENCE ", MAXTOK=n)


def strings(chk):
    xs = [s(x) for x in _run(chk, "StringMachine", "BODY ", MAXPIECES=4 if THOROUGH else 3)]
    return list(dict.fromkeys(xs))


def numbers(chk):
    return [s(x) for x in _run(chk, "NumberMachine", "NUMBER ", MAXLEN=7 if THOROUGH else 6)]


def evals(chk):
    """(query, document text) of the evaluation machine"""
    r = tlc("EvalMachine", env=dict(MAXSEG=2, MAXNODES=4 if THOROUGH else 3))
    chk.model(r)
    out = []
    for x in r.printed:
        if isinstance(x, str) and x.startswith("EVAL "):
            d = json.loads(x[5:])
            out.append((d["q"], d["doc"]))
    if not out:
        raise ToolError("no behaviours from EvalMachine")
    return out


def agreement(chk, lang, sets, texts):
    """Obligation of the specification itself: the recogniser that judges the
    parsers agrees with the grammar of the RFC as data, on every text of up to
    n tokens in the contexts of every set (contexts, tokens, n), and on texts."""
    cps = lambda t: [ord(c) for c in t]
    n = 0
    for ctx, toks, length in sets:
        p = write_trace([dict(lang=lang, contexts=[[cps(a), cps(b)] for a, b in ctx], tokens=[cps(t) for t in toks])], "setup")
        r = tlc("AbnfAgree", env=dict(SETUP=p, LEN=length))
        chk.model(r)
        n += r.distinct
    texts = list(dict.fromkeys(texts))
    bad, r = validate("TraceAbnf", [dict(lang=lang, q=cps(t)) for t in texts])
    if r is not None:
        chk.model(r)
    if bad:
        raise ToolError("recogniser and grammar disagree on %r" % texts[bad[0][0]])
    chk.cov["agreement_of_recogniser_and_rfc_grammar"] = n + len(texts)
