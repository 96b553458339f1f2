"""Checks of the parsers: C01 C02 C03 C04 C05 C06 C21."""
import itertools
from lib import *
from gen import *
from parsing import *

ASSUME = [
    "number literals are compared at double precision: generated literals have at most 15 significant digits (or are 64-bit integers)",
    "trees are compared up to the association of chains of the same logical operator",
]


# ---------------------------------------------------------------- C01
CONTEXTS = [("$", ""), ("$[", "]"), ("$[?", "]"), ("$[?@.a", "]"), ("$[?count(", ")==1]"), ("$[?match(", ")]"), ("$[?(", ")]"), ("$[?!", "]"), ("$[?@[", "]]"), ("$[?@[", "]==1]"), ("$[", ",0]"), ("$['a'", "]"),
            ("$[1", "]"), ("$[1:", "]"), ("$..", ""), ("$.a", ""), ("$[?@.a==1", "]"), ("$[?1==", "]"), ("$[?@.a&&", "]"), ("$[?value(@.a)", "]"), ("$[?length(@", ")>0]"), ("", "$"), ("$[*]", "[0]"), ("$[?@[?", "]]"), ("$[?@[?@.b]", "]")]
TOK2 = ["$", "@", ".", "..", "[", "]", "*", "?", ":", ",", "!", "(", ")", "&&", "||", "==", "!=", "<", ">=", "'a'", '"b"', "''", "a", "ab", "é", "0", "1", "-1", "01", "-0", "1.5", "1e2", "-", "+", "true", "null", "false", "length(", "count(",
        "match(@,'a')", "@.a", "@.*", "$.b", " ", "\n", "\t ", "&", "|", "=", "'", '"', "\\", "\u00a0", "\x0b", "\0", "_", "~", "\u2028", "1.", ".5", "1e", "[0]", "['a']", "[*]", "[?@]", "()", "(@)", ".a", "..a", ".*", "[0,1]", "[::]", "$$", "A(", "TRUE", "False", "nUll", "E1"]
TOK3 = ["$", "@", ".", "..", "[", "]", "*", "?", ":", ",", "!", "(", ")", "&&", "||", "==", "<", "'a'", "a", "0", "-1", "true", "count(", "@.a", " "]


def every_char():
    return [chr(c) for c in range(128)] + list("\u0080\u0085\u00a0é\u0378\u2003\u2028\u3000\ud7ff\ue000\ufeff\ufffd\uffff\U00010000😀\U0010ffff" "\u0663\u00b2\u2167\U0001d7d9\uff11\uff41\uff0e\u00df\u0130\u0131\u017f\u01c5\u212a\u200b\u0301")


def scalars(r, n):
    """Unicode scalar values, about as many of every length and plane"""
    out = []
    while len(out) < n:
        bits = r.randint(1, 21)
        c = r.randrange(1 << (bits - 1), 1 << bits) if r.random() < 0.6 else r.choice([r.randrange(0x110000), r.randint(0xD700, 0xE0FF), r.randint(0, 16) * 0x10000 + r.choice([0, 1, 0x3FF, 0x400, 0xFFFD, 0xFFFE, 0xFFFF])])
        if c < 0xD800 or 0xDFFF < c < 0x110000:
            out.append(chr(c))
    return out


def blanks(seed_texts):
    for t in seed_texts:
        for i in range(len(t) + 1):
            for b in (" ", "\t", "\n", "\r", " \r\n\t"):
                yield t[:i] + b + t[i:]
            for b in ("\x0b", "\x0c", "\u00a0", "\u2003", "\x85", "\ufeff", "\0"):
                yield t[:i] + b + t[i:]


SEEDS = [
    "$", "$.a", "$..a", "$.*", "$..*", "$[0]", "$['a']", '$["a"]', "$[*]", "$[1:2:3]", "$[:]", "$[::]", "$[-1:]", "$['a',0,*,1:2]", "$..['a']", "$.a.b[0]['c']..d",
    "$[?@]", "$[?@.a]", "$[?!@.a]", "$[?@.a==1]", "$[?@['a']=='x']", "$[?@[0]!=-1.5e+3]", "$[?1<=@.a]", "$[?@.a&&@.b||@.c]", "$[?(@.a)]", "$[?!(@.a||@.b)]", "$[?count(@.*)>2]", "$[?match(@.a,'b')]", "$[?!search(@,\"b\")]",
    "$[?length(value(@..a))==1]", "$[?@.a,?@.b]", "$[?@[?@.x>1]]", "$[?$.a==@.b]", "$[?true==false]", "$[?null!=@]", "$[?@..a]", "$[?@.a>=$['b'][0]]", "$[?count(@['a','b'])==length('xy'),0]",
    "$[?((@.a==1)&&(@.b))]", "$[?@[1:2]]", "$[?@['a'][0].b==$.c]", "$[?@.a&&(@.b||!@.c)]", "$[?count($..['a',1:2])>=1e2]", "$[?@.a<-1]", "$[0:1:-1,'x']", "$[?match(@.a,$.b)&&1==1]",
    # the extensions of crate G
    "a.b", "['a'].b", "[0][1]", "$[a,b.c]", "$[$.x[0]]", "$[['a'][0],$]", "..a", "$..[a.b,$]", "[?@.a]",
]


def c01():
    chk = Check("C01")
    chk.assumptions = ASSUME
    r = chk.rng
    P = Parses(chk, "C01")
    # 1. the grammar as a derivation machine: every short sentence, and its
    #    single token corruptions
    from machines import sentences

    sents = sentences(chk)
    for toks in sents:
        P.add("".join(toks))
    P.go("grammar_sentences")
    pick = r.sample(sents, min(len(sents), N(700, 8000)))
    for toks in pick:
        i = r.randrange(len(toks))
        P.add("".join(toks[:i] + toks[i + 1 :]))
        for t in r.sample(TOK2, N(2, 6)):
            P.add("".join(toks[:i] + [t] + toks[i:]))
            P.add("".join(toks[:i] + [t] + toks[i + 1 :]))
        P.add("".join(toks[:i]))
    P.go("corrupted_sentences")
    # 2. every pair of tokens in every context; triples of fewer tokens
    for a, b in CONTEXTS:
        for t in TOK2:
            P.add(a + t + b)
    for ctx in CONTEXTS if THOROUGH else r.sample(CONTEXTS, 3):
        for t in itertools.product(TOK2, repeat=2):
            P.add(ctx[0] + "".join(t) + ctx[1])
    for ctx in CONTEXTS[:4] + CONTEXTS[6:9] if THOROUGH else []:
        for t in itertools.product(TOK3, repeat=3):
            P.add(ctx[0] + "".join(t) + ctx[1])
    # 3. every character everywhere
    ch = every_char()
    for a, b in [("$", ""), ("", ""), ("$.", ""), ("$.a", ""), ("$..", ""), ("$[", "]"), ("$['a'", "]"), ("$[?@.", "]"), ("$[?@", "]"), ("$[?@.a", "1]"), ("$[?count", "(@.*)>1]"), ("$[0", "]"), ("$[1:2", "]"), ("$[?", "(@.a,'b')]"), ("$[?@.a ", "]"), ("$[?@.a==1", "]"), ("$[?@.a=='", "']"), ('$["', '"]'), ("$[?@.a==", "]"), ("$[?@.a==1.", "]"), ("$[?@.a==1.5", "]"), ("$[?@.a==1e", "]"), ("$[-", "]"), ("$[1:", "]"), ("$[?f", "()]"), ("$[?tru", "==1]"), ("$[?tru", "e==1]"), ("$[?@.a ", "= 1]"), ("$[?@.a=", "1]")]:
        for c in ch:
            P.add(a + c + b)
            if THOROUGH or r.random() < 0.1:
                P.add(a + c + " " + b)
    for c in ODD:
        for f in ("%s$", "$%s", "$.%s", "$.a%s", "$.%sa", "$[%s'a']", "$['a'%s]", "$['%s']", '$["%sa"]', "$[?@.a%s==1]", "$[?@=='%s']", "$[?count%s(@)==1]", "$[?count(@%s)==1]", "$[1%s:2]", "$[?@.a&%s&@.b]"):
            P.add(f % c)
    # 4. blank space at every place of every kind of construct
    for t in blanks(SEEDS):
        P.add(t)
    P.go("systematic_texts")
    # 5. random queries and corruptions of them
    g = Gen(r)
    for _ in range(N(5000, 120000)):
        t = g.text(g.query())
        P.add(t)
        if r.random() < 0.7:
            P.add(mutate(r, t))
    gx = Gen(r, ext=True)
    for _ in range(N(700, 10000)):
        t = gx.text(gx.query(), implicit=r.random() < 0.5)
        P.add(t if r.random() < 0.7 else mutate(r, t))
    P.go("random_texts")
    # the recogniser against the grammar of the RFC as data
    from machines import agreement

    quick = [(CONTEXTS, TOK2, 1), (r.sample(CONTEXTS, 2), TOK2, 2)]
    short = [t for t in P.seen_texts() if len(t) < 60]
    agreement(chk, "jsonpath", [(CONTEXTS, TOK2, 2)] if THOROUGH else quick, r.sample(short, min(len(short), N(3000, 40000))))
    # long and nested texts
    from growing import FAMILIES, ACCEPT, grown, sized

    grown(chk, sized(list(FAMILIES), "ABCDEFG", None if THOROUGH else dict(flat=[256, 3000], nest=[65, 130], chain=[130, 257], quad=[20], little=[40])), small=True, only=ACCEPT)
    chk.finish()


# ---------------------------------------------------------------- C02
def c02():
    chk = Check("C02")
    chk.assumptions = ASSUME
    r = chk.rng
    P = Parses(chk, "C02")
    sigs = [("f%s%s" % (p.lower(), q.lower()), p, q) for p in ("", "V", "L", "N") for q in "VLN"]
    fns = [dict(n=n, p=p, r=q) for n, p, q in sigs] + [dict(n="g", p="VLN", r="V"), dict(n="h", p="NN", r="L"), dict(n="k", p="LV", r="N")]
    lits = ["1", "'a'", "true", "null", "-1.5e2"]
    singular = ["@", "$", "@.a", "$['a'][0]", "@[-1]"]
    nodes = ["@.*", "$..a", "@['a','b']", "@[0:1]", "@[?@.x]", "@..[0]"]
    calls = ["fv(1)", "fl(@.a)", "fn(@.*)", "fvl(1)", "fll(@)", "fln(@.a)", "fvn(1)", "fv()", "fl()", "fn()", "nope(1)", "length(@)", "count(@.*)", "match('a','b')", "value(@.*)"]
    calls = [c for c in calls]
    logical = ["@.a==1", "!@.a", "@.a&&@.b", "@||$", "(@.a)", "!(@.a==1)", "1==1", "(1==2)", "fvl(1)&&@.a", "!fvl(1)", "(fvv(1)==1)", "match(@.a,'x')||@.b"]
    # the names above are shorthands for declared ones
    ren = {"fv(": "fvv(", "fl(": "flv(", "fn(": "fnv("}

    def fix(t):
        for a, b in ren.items():
            t = re.sub(r"(?<![a-z])" + re.escape(a), b, t)
        return t

    args = lits + singular + nodes + [fix(c) for c in calls] + logical
    uses = ["%s", "!%s", "(%s)", "!(%s)", "%s==1", "1<%s", "%s!=@.a", "%s&&@.a", "@.a||%s", "%s==%s", "count(%s)==1", "length(%s)==1", "fll(%s)", "fvl(%s)", "fnl(%s)", "!fln(%s)", "@[?%s]", "value(%s)>=0", "(%s&&@.a)", "(@.a||%s)", "!(%s&&@.a)", "!(@.a||%s)", "((%s||@.a)&&@.b)", "fll(@.a&&%s)", "@[?@.x||%s]", "@.a||@.b&&%s", "@.a&&%s||@.b", "(@.a&&@.b||%s)", "fnl((%s))", "(%s)==1", "@.a==(%s)", "(%s==1)||@.a", "!%s==1", "!(%s==1)"]
    # every declared type against every kind of argument, then every result in every use
    for n, p, q in sigs + [(x, *STD_FNS[x]) for x in ("length", "count", "value")]:
        use = {"V": "%s==1", "L": "%s", "N": "%s"}[q]
        for a in args:
            P.add("$[?" + use % ("%s(%s)" % (n, a)) + "]", fns=fns)
    for n in ("match", "search", "h", "k"):
        for a in args:
            for b in r.sample(args, N(6, len(args))):
                u = "%s(%s,%s)" % (n, a, b)
                P.add("$[?%s]" % u, fns=fns)
    ok = {"V": "1", "L": "@.a==1", "N": "@.*"}
    for n, p, q in sigs + [("g", "VLN", "V"), ("h", "NN", "L"), ("k", "LV", "N")] + [(x, *y) for x, y in STD_FNS.items()]:
        good = [ok[t] for t in p]
        call = "%s(%s)" % (n, ",".join(good))
        for u in uses:
            P.add("$[?" + u.replace("%s", call) + "]", fns=fns)
            P.add("$.a[?" + u.replace("%s", call) + ",0]", fns=fns)
            P.add("$..[?@.x," + "?" + u.replace("%s", call) + "]", fns=fns)
        for wrong in (good + ["1"], good[:-1] if good else ["@", "1"], good + ["@.*", "@"], []):
            P.add("$[?%s(%s)%s]" % (n, " , ".join(wrong), "==1" if q == "V" else ""), fns=fns)
        # unregistered look-alikes
        for m in (n + "x", n[:-1] or "q", n + "_", n + "0", n.upper()):
            P.add("$[?%s(%s)%s]" % (m, ",".join(good), "==1" if q == "V" else ""), fns=fns)
        # without registering anything: the standard functions only
        P.add("$[?%s%s]" % (call, "==1" if q == "V" else ""))
        # three argument function, one argument wrong at a time
    for i in range(3):
        for a in args:
            xs = ["1", "@.a", "@.*"]
            xs[i] = a
            P.add("$[?g(%s)==1]" % ",".join(xs), fns=fns)
    # a standard function registered again: the new signature is the one that counts,
    # wherever the call stands
    for n in STD_FNS:
        for p in ("", "V", "L", "N", "VV", "NL"):
            for q in "VLN":
                f = [dict(n=n, p=p, r=q)]
                call = "%s(%s)" % (n, ",".join(ok[t] for t in p))
                more = [f, f + [dict(n="f" + x.lower(), p=x, r="L") for x in "VLN"]]
                for x in "VLN":
                    P.add("$[?f%s(%s)]" % (x.lower(), call), fns=more[1])
                for u in uses + ["count(%s)>1", "length(%s)>1", "value(%s)==1", "match(%s,'a')", "search('a',%s)"]:
                    P.add("$[?" + u.replace("%s", call) + "]", fns=f)
                other = [x for x in STD_FNS if x != n]
                for x in other:
                    P.add("$[?%s(%s)==1]" % (x, ",".join([call] * len(STD_FNS[x][0]))), fns=f)
                    P.add("$[?%s(%s)]" % (x, ",".join([call] * len(STD_FNS[x][0]))), fns=f)
    # every character that a name may have, in every place, and its neighbours
    for c in "abcdefghijklmnopqrstuvwxyz0123456789_`{AZ/:@-^é":
        for n in (c, "f" + c, "f" + c + "g", c + c, "f_" + c):
            fs = [dict(n=n, p="N", r="L")]
            P.add("$[?%s(@.*)]" % n, fns=fs)
            P.add("$[?!%s(@)&&@.a==1||%s($)]" % (n, n), fns=fs)
            P.add("$[?%s(@.*)]" % n, fns=[dict(n="f", p="N", r="L")])
    # functions that are called like literals
    for n in ("true", "false", "null", "tru", "truex", "nullnull"):
        for q in "VLN":
            fs = [dict(n=n, p=p, r=q) for p in ("", "V", "L")]
            for u in uses + ["vv(%s)==%s", "%s==" + n, n + "!=%s", "@.a==" + n + "&&%s", "count(%s)>" + n, "match(%s,%s)", "!!%s", n, n + "()", n + "(@)", n + "  (@)", n + "(" + n + "(@))", n + "(" + n + ")", n + "(@.a==" + n + ")"]:
                for f in fs:
                    call = "%s(%s)" % (n, {"": "", "V": "@.a", "L": "@.a||@.b"}[f["p"]])
                    P.add("$[?" + u.replace("%s", call) + "]", fns=[f])
                P.add("$[?" + u.replace("%s", n + "(@)") + "]")
    P.go("systematic_texts")
    # random sets of signatures (including re-registered standard names), random uses
    for _ in range(N(60, 1500)):
        fs = []
        for k in range(r.randint(0, 4)):
            n = r.choice(["f", "g", "foo", "f_1", "h", "count_x", "lengthx", "tru", "nulls", "a", "true_", "null0", "falsey", "true", "false", "null", "length", "count", "match", "value"])
            # now and then a name is registered again
            if n not in [f["n"] for f in fs] or r.random() < 0.5:
                fs.append(dict(n=n, p="".join(r.choice("VLN") for _ in range(r.randint(0, 3))), r=r.choice("VLN")))
        table = dict(STD_FNS)
        table.update({f["n"]: (f["p"], f["r"]) for f in fs})
        g = Gen(r, fns=table)
        kw = dict(fns=fs) if fs else {}
        # half of the texts are written against wrong declarations
        wrong = {n: (("".join(r.choice("VLN") for _ in p) if r.random() < 0.5 else p[1:] if r.random() < 0.5 else p + "V"), r.choice("VLN") if r.random() < 0.4 else q) for n, (p, q) in table.items()}
        gw = Gen(r, fns=wrong)
        for _ in range(40):
            h = g if r.random() < 0.5 else gw
            h.sp_p = 0.05
            t = "$[?" + h.t_log(h.logical(3), 0) + "]"
            if "(" in t:
                P.add(t, **kw)
                if r.random() < 0.1:
                    P.add(mutate(r, t, 1), **kw)
    P.go("random_texts")
    # many and nested calls
    from growing import ACCEPT, EDGE, grown, sized, some

    grown(chk, sized(some("calls|counts|arguments|length of|count of|value of|compared|literal tests", ok=False), "ABCDEFG") + [("many arguments", n, c) for n in (254, 512, 1024) + tuple(EDGE) for c in "ABCDEFG"], small=True, only=ACCEPT)
    chk.finish()


# ---------------------------------------------------------------- C03
def c03():
    chk = Check("C03")
    chk.assumptions = ASSUME
    r = chk.rng
    P = Parses(chk)
    from machines import sentences

    for toks in sentences(chk):
        P.add("".join(toks))
    P.go("grammar_sentences")
    # every small boolean expression: operators and parentheses over three tests
    atoms = ["@.a", "$.b", "@.c==1", "!@.d", "!(@.e)", "count(@.f)>1", "match(@.g,'x')"]

    def exprs(n):
        if n == 1:
            yield "%s"
            return
        for k in range(1, n):
            for a in exprs(k):
                for b in exprs(n - k):
                    for op in ("&&", "||"):
                        yield a + op + b
                        yield "(" + a + op + b + ")"
                        if n <= 3:
                            yield "!(" + a + op + b + ")"

    for n in (1, 2, 3, 4):
        es = list(dict.fromkeys(exprs(n)))
        if n == 4 and not THOROUGH:
            es = r.sample(es, min(len(es), 500))
        for e in es:
            for _ in range(1 if n > 2 else 3):
                xs = [r.choice(atoms) for _ in range(n)]
                P.add("$[?" + e % tuple(xs) + "]")
                if r.random() < 0.3:
                    P.add("$[?" + (e % tuple(xs)).replace("&&", " && ").replace("||", "\n|| ").replace("(", "( ") + "]")
    # every selector shape in every position
    sels = ["'a'", '"b"', "0", "-1", "*", ":", "1:", ":2", "::3", "1:2", "1::3", ":2:3", "1:2:3", "-1:-2:-3", "0:0:0", "?@.a", "?@.a==1", "?!@[0]"]
    for a in sels:
        for pre in ("$", "$..", "$.a", "$[?@", "$[?$..", "$[?count(@", "$[?@.x<value($"):
            end = {"$[?count(@": ")==1]", "$[?@.x<value($": ")]"}.get(pre, "]" if pre.startswith("$[?") else "")
            P.add(pre + "[" + a + "]" + end)
            for b in r.sample(sels, N(5, 18)):
                P.add(pre + "[" + a + "," + b + "]" + end)
                P.add(pre + "[" + a + "][" + b + "]" + end)
                P.add(pre + "[" + a + "]..[" + b + "]" + end)
                P.add(pre + "[" + a + " , " + b + " , " + r.choice(sels) + "]" + end)
    for op in OPS:
        for x in ["1", "@", "$", "@.a", "$[0]", "'s'", "true", "null", "length(@)"]:
            for y in ["-1.5", "@", "$.b", '"t"', "false", "value(@.*)"]:
                P.add("$[?%s%s%s]" % (x, op, y))
    P.go("systematic_texts")
    g = Gen(r)
    g2 = Gen(r, maxseg=7)
    for _ in range(N(7000, 150000)):
        h = g if r.random() < 0.8 else g2
        P.add(h.text(h.query(3 if r.random() < 0.3 else 2)))
    for _ in range(N(1000, 20000)):
        P.add("$[?" + g.t_log(g.logical(2, 4), 0) + "]")
    gx = Gen(r, ext=True)
    for _ in range(N(800, 10000)):
        P.add(gx.text(gx.query(), implicit=r.random() < 0.5))
    P.go("random_texts")
    chk.finish()


# ---------------------------------------------------------------- C04
STRCTX = [("$[", "]"), ("$[?@.a==", "]"), ("$[?@[", "]]"), ("$[?match(@,", ")]"), ("$[0,", ",*]"), ("$..[", "]"), ("$[?@[", "]==1]"), ("$[?", "<$.x]"), ("$[?count(@[", "])==2]")]


def c04():
    chk = Check("C04")
    chk.assumptions = ASSUME
    r = chk.rng
    P = Parses(chk, "C04")

    def put(body, ctxs=None):
        for q in "'\"":
            for a, b in ctxs or r.sample(STRCTX, 2):
                P.add(a + q + body + q + b)

    from machines import strings

    for b in strings(chk):
        put(b, r.sample(STRCTX, N(1, 4)))
    # every single character, raw and after a backslash
    for c in every_char():
        for ctx in STRCTX:
            put(c, [ctx])
            put("\\" + c, [ctx] if THOROUGH else [r.choice(STRCTX)])
        put("x" + c + "y")
        put("\\u" + c)
        put("\\u00" + c + "1")
        put("\\u" + c + "041")
        put("\\u004" + c)
        put("\\ud83d\\" + c + "de00")
    units = ["0020", "0041", "007f", "0080", "07ff", "0800", "d7ff", "d800", "D83D", "dbff", "dc00", "DE00", "dfff", "e000", "fffe", "FFFF", "00e9", "2028"]
    for u in units:
        put("\\u" + u)
        put("a\\u" + u + "b")
        for v in units:
            put("\\u" + u + "\\u" + v)
            put("\\u" + u + "x\\u" + v)
            put("\\u" + u + "\\n\\u" + v, [r.choice(STRCTX)])
    # every hexadecimal digit (and what is next to one) in every place
    for u in ("\\u0041", "\\uE9ff", "\\uD7Fb", "\\ud83d\\ude00", "\\uDBF0\\uDC3f"):
        for i in range(len(u)):
            if u[i] not in "\\u":
                for c in "0123456789abcdefABCDEFgG/:@`":
                    put(u[:i] + c + u[i + 1 :], [r.choice(STRCTX)])
    # scalar values from everywhere, written in every way
    anywhere = scalars(r, N(500, 5000)) + ODD
    for c in anywhere:
        n = ord(c)
        us = [n] if n < 0x10000 else [0xD800 + ((n - 0x10000) >> 10), 0xDC00 + ((n - 0x10000) & 0x3FF)]
        e = "".join("\\u" + (("%04x" if r.random() < 0.5 else "%04X") % x) for x in us)
        put(e, [r.choice(STRCTX)])
        put(e[:-1], [r.choice(STRCTX)])
        if n > 31 and c not in "'\"\\":
            put(c + e, [r.choice(STRCTX)])
        P.add(r.choice(["$.%s", "$..%s", "$.x%sy", "$[?@.%s==1]"]) % c)
    for k in range(1, 12):
        put("\\ud83d\\ude00"[:k])
        put("ab\\ud83d\\ude00"[: k + 2] + "z")
    # sequences of string elements
    el = ["a", "é", "😀", "\u2028", "\x7f", "/", "\\/", "\\\\", "\\n", "\\t", "\\b", "\\f", "\\r", "\\'", '\\"', "'", '"', "\\u0041", "\\u00e9", "\\ud83d\\ude00", "\\uD7FF", "u0041", "n", "$", "]", "\\u005c", "\\u0022", "\\u0027"]
    for t in itertools.product(el, repeat=2):
        put("".join(t), [r.choice(STRCTX)])
    for t in r.sample(list(itertools.product(el, repeat=3)), N(2500, 21000)):
        put("".join(t), [r.choice(STRCTX)])
    for _ in range(N(1500, 20000)):
        put("".join(r.choice(el + ["\\", "\\u", "\\x", "\n", "\\ud800", "\\udc00", "\\u12"]) for _ in range(r.randint(3, 9))), [r.choice(STRCTX)])
    # two strings in one text, in the same and in different quotes
    for _ in range(N(600, 6000)):
        a, b = ("".join(r.choice(el) for _ in range(r.randint(0, 3))) for _ in "ab")
        q, p = r.choice("'\""), r.choice("'\"")
        P.add("$[%s%s%s,%s%s%s]" % (q, a, q, p, b, p))
        P.add("$[?@[%s%s%s]==%s%s%s]" % (q, a, q, p, b, p))
    # shorthands denote themselves
    for c in every_char():
        for t in ("$.%s", "$..%s", "$.x%s", "$.x%sy", "$[?@.%s]", "$[?@.x%s==1]", "$.%sx"):
            P.add(t % c)
    for _ in range(N(300, 3000)):
        P.add("$." + "".join(r.choice("ab_Z09é☺😀\u0080\U0010ffff-$") for _ in range(r.randint(1, 6))))
    P.go("texts")
    # what a string denotes is what it is compared with: members and values
    from evaluating import Evals

    E = Evals(chk, {"C04"})
    pool = ["", "a", "é", "e\u0301", "😀", "\u2028", "\\", "/", "'", '"', "\n", "\t\r\b\f", "\\n", "\\u0041", "A", "a b", "\x7f", "\ud7ff\ue000", "\uffff", "\U0010ffff", "a'b\"c", "]", "*", "0", "\x00" if False else "x"]
    g = Gen(r)
    for c in r.sample(anywhere, N(150, 1500)) + ODD:
        d = r.choice(anywhere)
        E.add(r.choice(["$[%s]", "$..[%s]", "$[?@==%s]", "$[?@<=%s]"]) % g.quote(c, 0.7), {c: d, d: c, c + d: "x" + c})
    for _ in range(N(900, 12000)):
        ns = r.sample(pool, r.randint(2, 6))
        doc = {n: (r.choice(pool) if r.random() < 0.6 else {r.choice(pool): r.choice(pool)}) for n in ns}
        a, b = r.choice(ns + pool), r.choice(list(x for x in doc.values() if isinstance(x, str)) + pool)
        qa, qb = g.quote(a, 0.4), g.quote(b, 0.4)
        if CTRL.search(qa + qb):
            pass
        E.add(r.choice(["$[%s]" % qa, "$..[%s]" % qa, "$[?@==%s]" % qb, "$[?@[%s]]" % qa, "$[?@!=%s]" % qb, "$[?%s<@]" % qb, "$[?@[%s]==%s]" % (qa, qb), "$[%s,%s]" % (qa, qb)]), doc)
    E.go("lookups")
    # long strings and names
    from growing import ACCEPT, NODES, grown, sized, some

    grown(chk, sized(some("literal|long name|long shorthand|long quotes|unterminated|equal strings|different strings", ok=False), "ABCDLEFG"), small=True, only=ACCEPT | NODES)
    chk.finish()


# ---------------------------------------------------------------- C05
def magnitudes(r):
    for m in ["1", "2", "5", "8", "9", "10", "15", "18", "92", "93", "99", "0.9", "9.3", "1.5", "123456", "0", "9.22337203685477", "9.22337203685478", "1.84467440737095", "1.84467440737096", "9.00719925474099", "2.14748364", "4.294967295"]:
        for e in range(-26, 42):
            yield r.choice(["", "-"]) + m + r.choice("eE") + ("-" if e < 0 else r.choice(["", "+", "0", "+00"])) + str(abs(e))
    for k in range(1, 64):
        for v in (2**k - 1, 2**k, 2**k + 1, -(2**k) - 1, -(2**k), 10**k, 10**k - 1, 1 - 10**k):
            yield "%d" % v
            yield r.choice(["%d.0", "%d.5", "%de0", "%d0e-1"]) % v


def c05():
    chk = Check("C05")
    chk.assumptions = ASSUME
    r = chk.rng
    P = Parses(chk, "C05")
    from machines import numbers

    lits = numbers(chk)  # every text up to a length over the characters of numbers
    for t in lits:
        P.add("$[?@.a==" + t + "]")
    for t in r.sample(lits, N(2500, len(lits))):
        P.add(r.choice(["$[?%s<@]", "$[?length(%s)==1]", "$[?@==%s&&@]", "$[?1!= %s ]", "$[?(@.a>=%s)]", "$[?match(%s,'a')]"]) % t)
    ints = [t for t in lits if len(t) <= 3 or (THOROUGH and len(t) <= 4)]
    for t in ints:
        P.add("$[%s]" % t)
        P.add("$[?@[%s]==1]" % t)
        for f in ("$[%s:]", "$[:%s]", "$[::%s]", "$[1:%s:2]", "$..[%s,0]"):
            P.add(f % t)
    # around the limits, default and configured
    M = 2**53 - 1
    edge = [M - 1, M, M + 1, -M + 1, -M, -M - 1, 2**63 - 1, 2**63, -(2**63), -(2**63) - 1, 2**64, 10**19, -(10**19), 2**31, 2**32, 10**30, 0, 1, -1]
    for v in edge:
        for f in ("$[%d]", "$[%d:]", "$[:%d]", "$[::%d]", "$[?@[%d]==1]", "$[?@.a[%d]]", "$[1:%d:2]", "$..[%d]"):
            P.add(f % v)
            P.add((f % v).replace("%d" % v, "0%d" % v if v >= 0 else "-0%d" % -v))
    for lo, hi in [(-5, 5), (0, 10), (-100, -1), (-(2**62), 2**62), (3, 3), (-(2**63) + 1, 2**63 - 1), (1, 2)]:
        for v in sorted({lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, 0, 1, -1, 9, 10, M, M + 1}):
            for f in ("$[%d]", "$[%d:]", "$[:%d]", "$[::%d]", "$[?@[%d]==1]", "$[:%d:1]"):
                P.add(f % v, lo=lo, hi=hi)
    for v in [M, M + 1, 2**63 - 1, -(2**63), 2**53 + 1, -(2**53) - 1, 123456789012345678, 999999999999999, 2**62 + 1, 10**18, 10**18 + 1]:
        if v < 2**63:
            P.add("$[?@.a==%d]" % v)
            P.add("$[?%d<@]" % v)
    # every magnitude: mantissas with all exponents, numbers next to powers of two and ten
    for x in magnitudes(r):
        P.add(r.choice(["$[?@.a==%s]", "$[?%s>=@]", "$[?@<%s]"]) % x)
    # random literals: sign, integer part, fraction, exponent
    for _ in range(N(5000, 80000)):
        ip = r.choice(["0", str(r.randint(1, 9)), str(r.randint(10, 999999)), "00", "01", ""]) if r.random() < 0.5 else str(r.randint(0, 10**6))
        fr = "" if r.random() < 0.4 else "." + "".join(r.choice("0123456789") for _ in range(r.randint(0, 7)))
        ex = "" if r.random() < 0.4 else r.choice("eE") + r.choice(["", "+", "-"]) + r.choice(["0", "00", "1", "2", "05", "9", "12", "20", "22", "23", "30", "100", "-1", ""])
        P.add(r.choice(["$[?@.a==%s]", "$[?%s>=@]", "$[?@<%s]"]) % (r.choice(["", "", "-", "+"]) + ip + fr + ex))
    P.go("texts")
    from evaluating import Evals

    E = Evals(chk, {"C05"})
    vals = ["0", "-0", "1", "-1", "1.5", "-1.5", "10", "100", "0.1", "0.5", "12.5", "1e2", "1.0", "-0.0", "1E-2", "0.01", "9007199254740991", "9007199254740993", "-9007199254740993", "9223372036854775807", "-9223372036854775808", "1e10", "10000000000", "1e20", "1e19", "12e18", "-1e19", "9223372036854775806", "1e-7", "0.0000001", "123456.789", "1.23456789e5"]
    for _ in range(N(700, 10000)):
        docs = [r.choice(vals) for _ in range(4)]
        q = r.choice(["$[?@%s%s]" % (r.choice(OPS), r.choice(vals)), "$[?%s%s@]" % (r.choice(vals), r.choice(OPS))])
        E.add(q, text="[" + ",".join(docs) + "]")
    E.go("comparisons")
    # many digits
    from growing import ACCEPT, NODES, grown, sized, some

    grown(chk, sized(some("digits|fraction|exponent|big literal|minus signs", ok=False), "ABCDLEFG"), small=True, only=ACCEPT | NODES)
    chk.finish()


# ---------------------------------------------------------------- C06
def c06():
    chk = Check("C06")
    chk.assumptions = ASSUME
    r = chk.rng
    P = Parses(chk)
    from machines import sentences

    for toks in sentences(chk):
        P.add("".join(toks))
    P.go("grammar_sentences", re_=True)
    # every number shape, name and string in every place; negations and groups
    from machines import numbers

    for t in r.sample(numbers(chk), N(900, 20000)) + NUMS:
        P.add("$[?@.a==" + t + "]")
    mags = list(magnitudes(r))
    for x in mags if THOROUGH else r.sample(mags, 700):
        P.add(r.choice(["$[?@.a==%s]", "$[?%s>=@]", "$[?@[?@<%s]]"]) % x)
    el = [c for c in every_char() if ord(c) > 31]
    g = Gen(r)
    for c in ODD:
        if ord(c) > 31:
            P.add("$" + "".join(r.sample([".%s", "..a%s", "['%s']", '["a%sb"]', "[?@.a%s=='%s']", "[?@[\"%s\"]]"], 2)).replace("%s", c))
    for c in el + QNAMES:
        for q in "'\"":
            b = c.replace("\\", "\\\\").replace(q, "\\" + q)
            if all(ord(x) > 31 for x in c):
                for f in ("$[%s]", "$[?@.a==%s]", "$[?@[%s]]", "$[?match(@,%s)]", "$['a',%s]"):
                    P.add(f % (q + b + q))
    for e in ["!@", "!(@)", "!(!@)", "!(!(@.a))", "!(@.a==1)", "!(@.a||@.b)", "!(@.a&&@.b)", "!count(@.*)" if False else "!match(@,'a')", "(@.a||@.b)&&@.c", "@.a||@.b&&@.c", "@.a&&(@.b||@.c)", "!(@.a==1)&&@.b", "@.a&&!(@.b<1)", "((@))", "!(@.a&&@.b||@.c)", "(@.a&&@.b)||(@.c&&@.d)", "!(@.a||!(@.b))", "@.a&&(@.b&&@.c)", "(@.a||@.b)||@.c", "ll(@.a&&@.b)==1"]:
        for f in ("$[?%s]", "$[?@[?%s]]", "$[?count(@[?%s])==1]", "$..[?%s,0]"):
            P.add(f % e)
    # integers around the limits and around powers of two, in every place of an integer
    M = 2**53 - 1
    edge = {s * (v + d) for v in (M, 2**31, 2**32, 2**52, 2**16, 2**15, 2**8, 2**7, 10**15, 1000, 10) for d in (-1, 0, 1) for s in (1, -1)}
    for v in sorted(v for v in edge if abs(v) <= M):
        for f in ("$[%d]", "$[%d:]", "$[:%d]", "$[::%d]", "$[?@[%d]==1]", "$[1:%d]", "$[%d:2]", "$[1:2:%d]", "$..[%d:%d:%d,'a']", "$[?$.a[%d]<1]"):
            P.add(f.replace("%d", "%d" % v))
    for a in ["", "0", "1", "-1", "9007199254740991"]:
        for b in ["", "0", "2", "-2", "-9007199254740991", "9007199254740991"]:
            for c in [None, "", "1", "-1", "0", "9007199254740991"]:
                P.add("$[%s:%s%s]" % (a, b, "" if c is None else ":" + c))
    P.go("systematic_texts", re_=True)
    for _ in range(N(2200, 60000)):
        P.add(g.text(g.query()))
    for _ in range(N(500, 15000)):
        P.add("$[?" + g.t_log(g.logical(2, 4), 0) + "]")
    gx = Gen(r, ext=True)
    for _ in range(N(500, 10000)):
        P.add(gx.text(gx.query(), implicit=r.random() < 0.5))
    P.go("random_texts", re_=True)
    # spellings of one query print identically
    jobs, groups = [], []
    for k in range(N(600, 15000)):
        h = gx if k % 5 == 0 else g
        tree = h.query()
        ts = []
        for _ in range(4):
            t = h.text(tree)
            if numbers_ok(t) and t not in ts:
                ts.append(t)
        if len(ts) > 1:
            groups.append((len(jobs), ts))
            jobs += [dict(op="parse", q=t) for t in ts]
    variants(chk, jobs, groups)
    # long and nested queries
    from growing import FAMILIES, PRINT, grown, sized

    grown(chk, sized([f for f, x in FAMILIES.items() if x["gok"]], "ABCDEFG", None if THOROUGH else dict(flat=[256, 1000], nest=[65, 130], chain=[130, 257], quad=[20], little=[40])), small=True, only=PRINT)
    chk.finish()


def variants(chk, jobs, groups):
    res = run_jobs(jobs)
    recs = []
    for k, ts in groups:
        rs = res[k : k + len(ts)]
        obs = {}
        for c in "ABCDEFG":
            d = [x["r"].get(c, {}).get("disp", []) if "r" in x else [] for x in rs]
            obs.setdefault(json.dumps(d), []).append(c)
        recs.append({"qs": [[ord(x) for x in t] for t in ts], "obs": [{"w": w, "d": json.loads(d)} for d, w in obs.items()]})
    bad, rt = validate("TraceVariants", recs)
    chk.validated(len(recs), rt)
    chk.cov["spelling_groups"] = len(groups)
    for i, b in bad:
        for y in b:
            ts = [groups[i][1][y["i"] - 1], groups[i][1][y["j"] - 1]]
            for c in y["w"]:
                chk.violation(c + " spellings print differently", "parser %s prints %r and %r differently" % (c, *ts), ts, key="%s spelling %s" % (c, " ".join(ts)))


# ---------------------------------------------------------------- C21
def c21():
    chk = Check("C21")
    chk.assumptions = ASSUME
    r = chk.rng
    P = Parses(chk)
    from machines import sentences

    for toks in sentences(chk):
        P.add("".join(toks))
    # every sequence of up to four segments of every kind
    segs = [".a", "['a']", '["a"]', "[0]", "[-1]", ".*", "[*]", "..a", "..[0]", "..*", "['a','b']", "[0,1]", "['a','a']", "[0,0]", "[1:2]", "[0:1]", "[:]", "[::1]", "[?@.a]", "[ 0 ]", " .a", "\n['a']", "..['a','b']", "[?@]", "[0,*]", "[*,*]"]
    for n in range(0, 4 if THOROUGH else 3):
        for t in itertools.product(segs, repeat=n):
            P.add("$" + "".join(t))
    for t in r.sample(list(itertools.product(segs, repeat=3)), 2000):
        P.add("$" + "".join(t))
    for t in ["$ ", " $", "$\n", "$[]"]:
        P.add(t)
    # selectors that select at most one element without being singular, selectors with
    # values at the edges, in front of and behind a singular segment
    ends = ["", "0", "1", "2", "-1", "-2", "3", "9007199254740991", "-9007199254740991"]
    for a, b in itertools.product(ends, repeat=2):
        for c in ("", ":", ":1", ":0", ":-1", ":2"):
            P.add("$[%s:%s%s]" % (a, b, c))
            P.add(r.choice(["$.a[%s:%s%s]", "$[%s:%s%s][0]", "$[%s : %s%s]", "$[?@[%s:%s%s]]", "$[?@.a[%s:%s%s]==1]", "$[?count($[%s:%s%s])==1]", "$[?length(@[%s:%s%s])==1]"]) % (a, b, c))
    for a in ends[1:] + ["4294967296", "-4294967296", "10"]:
        for f in ("$[%s]", "$[ %s ]", "$.a[%s]", "$[%s].a", "$[%s,%s]", "$..[%s]", "$[?@[%s]==1]", "$[%s][%s]"):
            P.add(f.replace("%s", a))
    for c in ODD[::9] + list("abzAZ09_$@*?.,:;!'\"\\/-+=<>()[]{}&|^~`#% \u00e9\u4e2d\U0001f600"):
        x = Gen(r).quote(c, 0)
        for f in ("$[%s]", "$.a[%s]", "$[%s][0]", "$[%s,%s]", "$[?@[%s]==1]"):
            P.add(f.replace("%s", x))
    gx = Gen(r, ext=True, filters=False)
    for _ in range(N(800, 8000)):
        P.add(gx.text(gx.query(), implicit=r.random() < 0.5))
    g = Gen(r, maxseg=8)
    for _ in range(N(1500, 30000)):
        P.add(g.text(g.query(1)))
    P.go("texts")
    # a singular query selects at most one node, an empty one the root alone
    from evaluating import Evals

    E = Evals(chk, {"C21"})
    dg = DocGen(r, names=["a", "b", "c"])
    gs = Gen(r, names=["a", "b", "c"], qnames=["a", "b"], big=False)
    for k in range(N(700, 8000)):
        E.add("$" if k % 20 == 0 else gs.text(gs.singular(4)), dg.doc())
    E.go("singular_evaluations")
    # long and nested queries
    from growing import FAMILIES, CLASS, grown, sized

    grown(chk, sized([f for f, x in FAMILIES.items() if x["gok"]], "ABCDEFG", None if THOROUGH else dict(flat=[256, 1025, 5000], nest=[17, 33, 65, 130, 260], chain=[130, 257, 513], quad=[20], little=[40])), small=True, only=CLASS)
    chk.finish()


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C21": c21}
