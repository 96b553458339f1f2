"""Checks of evaluation: C07 C08 C09 C10 C11 C12 C14 C15 C19."""
import itertools
from fractions import Fraction
from growing import FAMILIES, PROG, WIDE, SIZED, SUBJECTS, EDGE, ACCEPT, NODES, grown, slices, some, sized
from lib import *
from gen import *
from parsing import numbers_ok
from evaluating import Evals

ASSUME = [
    "documents have the member order and the numbers that serde_json gives them; numbers of documents and literals are 64-bit integers or doubles with at most 15 significant digits",
    "a descendant segment visits a node before its descendants and children in document order",
]


DOCS = [
    None, 0, "", "a", [], {}, [[]], [{}], {"a": []}, {"a": {}}, [1], [1, 2], [1, 2, 3], {"a": 1}, {"a": 1, "b": 2}, {"b": 2, "a": 1, "c": 3},
    [[1, 2], [3], []], [[[1]], [[2, 3]]], {"a": {"a": {"a": 1}}}, {"a": [{"a": 1}, {"b": 2}], "b": {"a": [3]}}, [{"a": 1}, [{"a": 2}], {"b": {"a": 3}}],
    {"a": None, "b": False, "c": [None, False, 0, ""]}, {"a": [[1, 2], {"a": [4]}], "b": "a"}, [1, "a", None, True, {"a": 1}, [1]], {"x": {"b": {"a": 1}, "a": {"b": 2}}, "a": 5},
    [[0, 1, 2, 3, 4], {"b": [5, 6, 7]}], {"": {"": 1}, "a": ""}, {"a": 1, "A": 2, "é": 3, "0": 4, "a b": 5}, [1, 1, 1], {"k": [1], "j": {"k": [2]}, "i": [{"k": [3]}]},
]
SEGS = [".a", ".b", "['a']", "[0]", "[-1]", "[1]", "[5]", ".*", "[*]", "..a", "..*", "..[0]", "..[-1]", "['a','b']", "['b','a']", "['a','a']", "[0,0]", "[1,0]", "[*,*]", "[*,0]", "[0,'a',*]", "[1:]", "[:2]", "[::-1]", "[::2]", "[0:2,0]", "..['a',0]", "..[*,'a']", "..[::-1]", "[:,:]", "..[1:]", "['']", "['0']"]


def c07():
    chk = Check("C07")
    chk.assumptions = ASSUME
    r = chk.rng
    E = Evals(chk)
    from machines import evals

    for q, d in evals(chk):
        E.add(q, text=d)
    E.go("machine_behaviours")
    # every pair of segments on every document of the pool
    pairs = [a + b for a in SEGS for b in [""] + SEGS]
    for d in DOCS:
        for q in [""] + SEGS:
            E.add("$" + q, d)
        for q in r.sample(pairs, N(60, len(pairs))):
            E.add("$" + q, d)
    E.go("segment_pairs")
    g = Gen(r, names=["a", "b", "c"], qnames=["", "a b", "☺", "é", "'", "0"], filters=False, big=False, maxseg=6)
    gf = Gen(r, names=["a", "b", "c"], qnames=["a", "b"], big=False)
    dg = DocGen(r, names=["a", "b", "c", "", "a b", "☺", "é", "'", "0"])
    for _ in range(N(4500, 60000)):
        h = g if r.random() < 0.8 else gf
        E.add(h.text(h.query()), dg.doc(4, 4, 80))
    E.go("random_queries")
    # names that are easily taken for one another, together in one object
    for a in ALIKE:
        for b in r.sample(ALIKE, N(4, len(ALIKE))):
            for d in ({a: 1, b: 2}, {b: 1}, {b: {a: 1}, a: [{b: 2}]}):
                E.add(r.choice(["$[%s]", "$..[%s]", "$.*[%s]", "$[?@[%s]==1]", "$[%s,0,%s]"]).replace("%s", g.quote(a, r.choice([0, 0, 0.5, 1]))), d)
    alike = {a: [{a: i}, i] for i, a in enumerate(ALIKE)}
    for a in ALIKE:
        t = g.quote(a, r.choice([0, 0.5]))
        for q in ("$[%s]", "$[%s][0]", "$..[%s]", "$[?@[0][%s]]", "$[%s]..*"):
            E.add(q % t, alike)
        if g.shorthand_ok(a):
            E.add("$." + a, alike)
            E.add("$.." + a, alike)
    E.go("alike_names")
    # wide and deep documents, long queries
    for k in range(N(40, 300)):
        d = 1
        for i in range(r.choice([20, 60, 100])):
            d = {"a": d, "b": i} if r.random() < 0.5 else [i, d]
        E.add(r.choice(["$..a", "$..*", "$..[0]", "$..b", "$..[1]", "$..['a','b']", "$" + "[*]" * r.randint(5, 20), "$..a..b"]), d)
        w = [{"a": i, "b": [i]} for i in range(r.choice([100, 150]))]
        E.add(r.choice(["$.*", "$..a", "$[*].b[*]", "$[10:90:7].a", "$[-1].a", "$[99]", "$..b[0]", "$[::-1].a", "$[100]", "$[*,0].a"]), w)
    for k in range(N(60, 400)):
        E.add("$" + r.choice(["[*]", ".*", "['a',*]", "[0,*]", "..*"]) * r.randint(1, 3) + "".join(r.choice([".a", ".b", "[0]", "[*]"]) for _ in range(r.randint(3, 10))), dg.doc(7, 10, 120))
    E.go("large_cases")
    # documents with very many children
    grown(chk, [(f, n, c) for f in WIDE for n in N([255, 256, 257, 1100, 65535, 65536, 65537, 140000], [127, 128, 255, 256, 257, 300, 1100, 5000] + EDGE + [70000, 300000]) for c in "DLEFG"], small=True)
    chk.finish()


def c08():
    chk = Check("C08")
    chk.assumptions = ASSUME
    r = chk.rng
    E = Evals(chk, paths=False)
    # the slice loop for arrays and bounds of any size
    chk.cov["slice_obligations_proved_unbounded"] = apalache(
        "SlicesUnbounded", [("Init", "Inv", 0), ("IndInit", "Inv", 1), ("IndInit", "Facts", 0)])
    res = tlc("SliceMachine", env=dict(MAXLEN=N(4, 5), RADIUS=N(6, 7)))
    chk.model(res)
    cases = [json.loads(x[6:]) for x in res.printed if isinstance(x, str) and x.startswith("SLICE ")]
    if not cases:
        raise ToolError("no slices")
    o = lambda v: "" if v == [] else str(v[0])
    for c in cases if THOROUGH else r.sample(cases, 9000):
        t = o(c["a"]) + ":" + o(c["b"]) + (":" + o(c["c"]) if c["c"] != [] else r.choice(["", ":"]))
        E.add("$[%s]" % t, [10 + k for k in range(c["len"])])
    E.go("machine_slices")
    # indexes
    for n in range(0, 6):
        for i in range(-8, 9):
            E.add("$[%d]" % i, list(range(n)))
            E.add("$[%d,%d]" % (i, r.randint(-8, 8)), [[k] for k in range(n)])
    # bounds far away
    M = 2**53 - 1
    far = [0, 1, -1, 2, -2, 3, -3, 4, 5, 6, -5, -6, 7, 10, -10, 100, -100, 2**31 - 1, 2**31, -(2**31), -(2**31) - 1, 2**32, -(2**32), 2**53 - 2, M, -M, 1 - M, 10**15, None]
    for n in (0, 1, 2, 3, 5, 8):
        for i in far:
            if i is not None:
                E.add("$[%d]" % i, list(range(n)))
    for _ in range(N(5000, 80000)):
        n = r.choice([0, 1, 2, 3, 4, 5, 7, 10, 30])
        v = [r.choice(far) if r.random() < 0.6 else r.randint(-n - 2, n + 2) for _ in range(3)]
        t = ":".join("" if x is None else str(x) for x in v)
        doc = list(range(n))
        k = r.random()
        if k < 0.6:
            E.add("$[%s]" % t, doc)
        elif k < 0.7:
            E.add("$.a[%s]" % t, {"a": doc, "b": [1, 2]})
        elif k < 0.8:
            E.add("$[?@[%s]]" % t, [doc, doc[1:], []])
        elif k < 0.9:
            E.add("$[?count(@[%s])==%d]" % (t, r.randint(0, n)), [doc, doc + [0], {"a": 1}])
        else:
            E.add("$..[%s]" % t, [doc, {"a": doc}, "xyz"])
    # a parser may be given any range of index integers: up to all of i64
    I64 = [0, 1, -1, 2, -2, 3, -3, 5, -6, 2**53, -(2**53), 2**62, -(2**62), 2**63 - 2, 2**63 - 1, -(2**63) + 1, -(2**63)]
    for n in (0, 1, 4):
        for i in I64:
            E.add("$[%d]" % i, list(range(n)), lo=-(2**63), hi=2**63 - 1)
    for _ in range(N(2500, 40000)):
        n = r.choice([0, 1, 2, 3, 4, 7])
        t = ":".join("" if x is None else str(x) for x in (r.choice(I64 + [None, None]) for _ in range(r.choice([2, 3, 3]))))
        lo, hi = (-(2**63), 2**63 - 1) if r.random() < 0.8 else r.choice([(-5, 5), (0, 2**62), (-(2**62), 0), (-3, 2**63 - 1)])
        E.add("$[%s]" % t, list(range(n)), lo=lo, hi=hi)
    # not arrays
    for d in (None, 1, "abc", True, {"0": 1, "1": 2, "-1": 3}, {}):
        for t in ("0", "-1", ":", "::-1", "0:2", "1"):
            E.add("$[%s]" % t, d)
    E.go("indexes_and_slices")
    # long arrays
    plan = []
    for _ in range(N(250, 3000)):
        n = r.choice([1000, 1025, 4097, 33000, 65537, 70000])
        near = [0, 1, -1, 2, 255, 256, 1000, 32767, 32768, 65535, 65536, 65537, n - 1, n, n + 1, 1 - n, -n, -n - 1, -65536, 2**31 - 1, 1 - 2**31, None]
        v = [r.choice(near) if r.random() < 0.7 else r.randint(-n, n) for _ in range(3)]
        plan.append((n, *v[:2], r.choice([None, 1, -1, 2, -2, 3, 7, -10, 256, 65536, v[2]]), r.choice("DLEFG")))
    for n in (70000, 66000):
        plan += [(n, a, b, s, c) for a, b, s in ((None, None, None), (None, None, -1), (65530, None, None), (None, -65530, 1), (-1, None, -1), (None, None, 65536)) for c in "DLEFG"]
    slices(chk, plan)
    chk.finish()


POOL = [
    "null", "true", "false", "0", "-0", "0.0", "-0.0", "1", "1.0", "-1", "2", "10", "1.5", "-1.5", "1e2", "100", "100.0", "0.1", "1e-1", "9007199254740991", "9007199254740992", "9007199254740993", "9007199254740992.0", "-9007199254740993", "9223372036854775807",
    "9223372036854775808", "18446744073709551615", "-9223372036854775808", "1e20", "1e300", "-1e300", "1e-300",
    '""', '"a"', '"A"', '"aa"', '"b"', '"1"', '"true"', '"null"', '"é"', '"\\ue000"', '"\U0001F600"', '"\\uffff"', '"e\u0301"', '"\\u0000"', '"a\\u0000"',
    "[]", "{}", "[1]", "[1.0]", "[2]", "[1,2]", "[2,1]", "[[1]]", "[[]]", "[null]", "[{}]", '{"a":1}', '{"a":1.0}', '{"b":1}', '{"a":1,"b":2}', '{"b":2,"a":1}', '{"a":{"b":[1,{"c":100}]}}', '{"a":{"b":[1.0,{"c":1e2}]}}', '{"a":null}', '{"a":[]}', "[18446744073709551615]", "[9223372036854775807]", "[9223372036854775808]", "[9007199254740993]", "[9007199254740992.0]", "[[1,2],[3]]", "[[1,2.0],[3]]", '["a","b"]',
]


def near(r):
    """a number next to a power: a 64-bit integer, or a double whose shortest
    decimal form is its exact value"""
    while True:
        n = r.choice([2, 2, 10]) ** r.randint(0, 63)
        n = r.choice([1, -1]) * (n + r.randint(-2, 2))
        x = r.choice(["%d", "%d", "%d.0", "%d.5", "%de1", "%de-1", "%de0"]) % n
        f = float(x)
        if r.random() < 0.3:
            x = repr(f)
        if re.fullmatch("-?[0-9]+", x):
            if -(2**63) <= int(x) < 2**64:
                return x
        elif Fraction(repr(f)) == Fraction(f) or abs(f) < 1e6:
            return x


def c09():
    chk = Check("C09")
    chk.assumptions = ASSUME
    r = chk.rng
    pool = "[" + ",".join(POOL) + "]"
    # the laws, on the specification, for the very values that are replayed
    d = run_jobs([dict(op="eval", q="$", dt=pool, cr="D")])
    p = write_trace([{"doc": d[0]["doc"]}], "laws")
    chk.model(tlc("CompareLaws", env=dict(TRACE=p), heap="10g"))
    E = Evals(chk)
    n = len(POOL)
    doc = '{"p":%s,"t":[1]}' % pool
    # every pair, one query per left operand and operator: which right operands?
    for i in range(n + 1):
        for op in OPS:
            E.add("$.p[?$.p[%d]%s@]" % (i, op), text=doc)
            E.add("$.p[?@%s$.p[%d]]" % (op, i), text=doc)
    for op in OPS:
        for a, b in (("$.x", "$.y"), ("@.x", "$.p[0]"), ("$.p[2]", "@.z"), ("value(@..x)", "@.x"), ("length(1)", "@.q"), ("@.x", "null"), ("false", "@.x")):
            E.add("$.t[?%s%s%s]" % (a, op, b), text=doc)
    lits = [x for x in POOL if x[0] not in "[{" and "\\" not in x and numbers_ok(x) and x not in ("18446744073709551615", "9223372036854775808", "9007199254740992.0")]
    for l in lits:
        for op in OPS:
            E.add("$.p[?@%s%s]" % (op, l), text=doc)
            if THOROUGH or r.random() < 0.4:
                E.add("$.p[?%s%s@]" % (l, op), text=doc)
    for _ in range(N(1500, 20000)):
        E.add("$.t[?%s%s%s]" % (r.choice(lits), r.choice(OPS), r.choice(lits)), text=doc)
    E.go("pool_comparisons")
    # random deep values compared with slightly different copies of themselves
    dg = DocGen(r, names=["a", "b", "c"], scalars=[None, True, False, 0, 1, 1.0, 2, 1.5, "a", "b", "", "1"])

    def perturb(v):
        if isinstance(v, list) and v:
            w = list(v)
            i = r.randrange(len(w))
            x = r.random()
            if x < 0.5:
                w[i] = perturb(w[i])
            elif x < 0.65:
                w.append(1)
            elif x < 0.8:
                del w[i]
            else:
                r.shuffle(w)
            return w
        if isinstance(v, dict) and v:
            ks = list(v)
            r.shuffle(ks)
            w = {k: v[k] for k in ks}
            x = r.random()
            k = r.choice(ks)
            if x < 0.5:
                w[k] = perturb(w[k])
            elif x < 0.65:
                w[k + "x"] = w.pop(k)
            elif x < 0.75:
                del w[k]
            elif x < 0.85:
                w["zz"] = None
            return w
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return float(v) if isinstance(v, int) and r.random() < 0.5 else v if r.random() < 0.5 else v + 1
        return v if r.random() < 0.5 else r.choice(dg.scalars)

    for _ in range(N(2500, 40000)):
        v = dg.value(4)
        w = perturb(v)
        op = r.choice(OPS[:2] * 3 + OPS)
        E.add(r.choice(["$.t[?$.x%s$.y]" % op, "$.l[?@%s$.y]" % op, "$.l[?@[0]%s@[1]]" % op]), {"x": v, "y": w, "t": [1], "l": [v, w, [v, w], [w, w], perturb(w)]})
    g = Gen(r, names=["a", "b", "c"], qnames=["a", "b", "x"], big=False)
    dg2 = DocGen(r, names=["a", "b", "c"])
    for _ in range(N(1200, 20000)):
        E.add("$..[?%s]" % (g.t_op(g.operand(1)) + r.choice(OPS) + g.t_op(g.operand(1))), dg2.doc())
    # strings that differ in one odd character
    for c in ODD:
        xs = [c, "", "a", c + "a", "a" + c, "a" + c + "a", "aa", c + c, " "]
        E.add("$.l[?@%s%s]" % (r.choice(OPS), r.choice(["$.l[%d]" % i for i in range(len(xs))])), {"l": xs})
        E.add("$.l[?@==$.l[%d]]" % r.randrange(len(xs)), {"l": xs})
    # numbers next to powers of two and of ten, as integers and as doubles
    for _ in range(N(250, 4000)):
        xs = [near(r) for _ in range(r.randint(6, 14))]
        text = '{"l":[%s],"m":[[%s],{"a":%s}]}' % (",".join(xs), xs[0], xs[1])
        E.add("$.l[?@%s$.l[%d]]" % (r.choice(OPS), r.randrange(len(xs))), text=text)
        E.add("$.l[?@%s$.l[%d]]" % (r.choice(["<", ">="]), r.randrange(len(xs))), text=text)
        E.add("$.m[?@%s$.m[%d]]" % (r.choice(OPS[:2]), r.randrange(2)), text=text)
    E.go("random_comparisons")
    # long strings, large arrays and objects, many comparisons
    grown(chk, sized(some("equal |different |longer |string not above|whole comparison|comparison of every|every number|first of a slice|against the root|comparisons|long literal|long astral literal"), "DLEFG"), small=True, only=NODES)
    chk.finish()


def c10():
    chk = Check("C10")
    chk.assumptions = ASSUME
    r = chk.rng
    E = Evals(chk)
    # every small boolean formula over three facts, on the document of all assignments
    rows = []
    for bits in itertools.product([0, 1], repeat=3):
        rows.append({n: v for n, b, v in zip("abc", bits, (None, False, 0)) if b})
    doc = {"rows": rows, "o": {(["", "0", "*"] + ["k%d" % i for i in range(9)])[i]: x for i, x in enumerate(rows)}, "yes": None}

    def forms(n):
        if n == 1:
            yield "%s"
            yield "!%s"
            return
        for k in range(1, n):
            for a in forms(k):
                for b in forms(n - k):
                    for op in ("&&", "||"):
                        yield a + op + b
                        yield "(" + a + op + b + ")"
                        yield "!(" + a + op + b + ")"

    fs = list(dict.fromkeys(f for n in (1, 2, 3) for f in forms(n)))
    for f in fs if THOROUGH else r.sample(fs, min(len(fs), 1200)):
        k = f.count("%s")
        names = r.sample(["@.a", "@.b", "@.c"], k) if r.random() < 0.8 else [r.choice(["@.a", "@.b", "$.yes", "$.no", "@", "@['c']"]) for _ in range(k)]
        E.add("$%s[?%s]" % (r.choice([".rows", ".o", "['rows']"]), f % tuple(names)), doc)
    ev = ["@.a==null", "@.b==false", "@.c==0", "@.a!=1", "@.b", "@.c<1", "$.yes==null", "count(@.*)>1", "1==1", "1>2"]
    for _ in range(N(700, 8000)):
        f = r.choice(fs)
        xs = [r.choice(ev) for _ in range(f.count("%s"))]
        t = f
        for x in xs:
            i = t.index("%s")
            t = t[:i] + ("(" + x + ")" if t[max(0, i - 1) : i] == "!" else x) + t[i + 2 :]
        E.add("$.rows[?%s]" % t, doc)
    E.go("boolean_formulas")
    # existence of every kind of value, by every kind of query
    vals = [None, False, True, 0, 1, "", "a", [], {}, [None], {"a": None}]
    d2 = {"v": vals, "w": [{"a": v} for v in vals], "x": [[v] for v in vals], "o": {"" if i == 2 else str(i): v for i, v in enumerate(vals)}, "": [1, {"": {"": "a"}}]}
    for q in ["@", "@.a", "@[0]", "@.*", "@..*", "@..a", "@['a']", "@[-1]", "@[0:1]", "@[?@]", "@[?!@]", "$", "$.v", "$.zz", "$..zz", "@['a',0]", "$.v[?@.a]", "@[::0]", "@.a.a", "@.*.*"]:
        for s in ("$.v", "$.w", "$.x", "$.o", "$", "$.*", "$.."):
            E.add("%s[?%s]" % (s, q), d2)
            E.add("%s[?!%s]" % (s, q), d2)
            E.add("%s[?%s,?!%s]" % (s, q, q), d2)
    E.go("existence")
    # scopes: '@' of the innermost filter, '$' of the argument, through nesting
    dg = DocGen(r, names=["a", "b", "c", "l"], scalars=[None, True, False, 0, 1, 2, 3, "a", "b", "x"])
    inner = ["@==1", "@==$.a", "$.l[0]==@", "@>=$.b", "@.a==$.a", "@.a", "@[?@==$.a]", "@[?@.a==1]", "$.l[?@==1]", "@.a==value($..b)", "$.l", "@[?$.a]", "@.*==1" if False else "@..a", "@[?@[?@==$.a]]", "@.l[?@.a>$.a]", "$[?@.a==1]", "@[?count($.l[?@>0])>1]", "value(@.a)==value($.a)", "@[?@.a==$.l[1]]"]
    for _ in range(N(1500, 20000)):
        x = r.choice(inner)
        for _ in range(r.choice([0, 1, 1, 2])):
            y = r.choice(inner)
            x = r.choice(["@[?%s]" % x, "$.l[?%s]" % x, "count(@[?%s])>0" % x, "%s&&%s" % (x, y), "%s||%s" % (x, y), "@.a[?%s]" % x, "$..[?%s]" % x, "!@[?%s]" % x, "value(@[?%s])==$.a" % x])
        E.add(r.choice(["$[?%s]", "$.l[?%s]", "$..[?%s]", "$.*[?%s]"]) % x, {"a": r.choice([0, 1, 2, "a"]), "b": r.choice([1, 2, "x"]), "l": dg.value(3), "c": dg.value(3)})
    g = Gen(r, names=["a", "b", "c"], qnames=["a", "b", "x"], big=False)
    for _ in range(N(2500, 40000)):
        E.add(r.choice(["$[?%s]", "$.a[?%s]", "$..[?%s]", "$[?%s,0]"]) % g.t_log(g.logical(3, 3), 0), dg.doc(4, 4, 60))
    E.go("random_filters")
    # '@' and '$' below piles of calls, filters and operators
    def scoped(ext):
        T = Terms(r, ext)
        for _ in range(N(1500, 20000)):
            x, y, z = r.sample([1, 2, 3, "abc", "b", "ab", 0, None, [1], ["abc", "b"], {"a": 1}], 3)
            e = [{"a": r.choice([x, y]), "s": "xabc"[: r.randint(0, 4)]}, {"b": [1, {"a": z}], "o": {"a": x, "s": "b"}}, {}, r.choice([x, y, z]), {"l": [{"a": y}, {"s": "abc"}], "s": "b"}]
            E2.add(r.choice(["$.l[?%s]", "$.l[?%s]", "$[?%s]", "$..[?%s]", "$.*[?%s,0]"]) % T.logical(r.randint(2, 5)), {"a": x, "s": r.choice(["abc", "b"]), "b": y, "o": {"a": z, "s": "xabc"}, "l": r.sample(e, 4)})

    for ext in (False, True):
        E2 = Evals(chk, ext=ext)
        scoped(ext)
        E2.go("scopes" + ("_with_extensions" if ext else ""))
    # filters over many children and deep filters
    fs = [f for f, x in FAMILIES.items() if x["ok"] and "[?" in "".join(x["parts"]) and x["doc"] in ("wide-a", "wide-o", "rows", "sparse", "deep-a", "deep-o") and "compar" not in f]
    many = some("existence of|absence of")
    grown(chk, sized(fs + many, "DLEFG") + [(f, n, c) for f in many for n in EDGE for c in "DLEFG"], small=True, only=NODES)
    chk.finish()


FNCALLS = ["length(@.a)", "length(@)", "count(@.*)", "count(@..*)", "count($.a)", "value(@.a)", "value(@..b)", "value(@.*)", "lv(@.a)", "lv(!@.a)", "lv(@.a==1)", "lv(nn(@.*))", "lv(ll(@.b))", "lv(vl(@.a))", "vv(@.a)", "vv(1)", "vv('x')", "vv(null)", "vv(true)", "vv(length(@.a))", "pick(@.a,@.b,@.*)", "pick(@.z,@.a&&@.b,@.*)", "pick(1,nl(@.*),nn(@.b))", "pick(vv(@.b),!@.a,$.a)", "mask_5(@,@.a,@.z,@.b,1)", "mask_5(@.a,@.b,null,false,@.a)", "mask_5(vv(@.z),@.b,length(@.a),@.a[0],'')", "count(mix4(@.a,@.*,@.b,@..*))", "value(mix4(@.z,@.z,@.z,@.a))", "count(mix4(@.a,mix4(@.b,@.a,1,@.b),@.z,@.*))", "one()", "length(value(@.*))", "length(vv(@.b))", "count(nn(@.*))", "count(nn(nn(@..a)))", "value(nn(@.a))", "vv(vv(@.a))", "length('é☺😀')", "length('')", "length(1)", "length(null)", "length($.s)", "lv(count(@.*)>1)", "lv(match(@.a,'a.*'))", "lv((@.a))", "lv(@.a||@.b)"]
TESTS = ["mix4(@.a,@.b,@.a,@.c)", "!mix4(@.b,@.b,@.z,@.*)", "ll(@.a)", "ll(!@.a)", "ll(@.a==@.b)", "ll(@.a&&@.b)", "ll(nn(@.a))", "ll(vl(@.z))", "nl(@.*)", "nl(@..a)", "nl(nn(@.*))", "nn(@.a)", "nn(@.*)", "vl(@.a)", "vl(1)", "vl(@.z)", "vl(length(@.a))", "vl(value(@.*))", "!nn(@.a)", "!ll(@.a)", "!nl(@.*)", "vl(vv(@.z))", "ll($.a)", "ll(search(@.a,'b'))"]


def c11():
    chk = Check("C11")
    chk.assumptions = ASSUME + ["the custom functions are those of harness/src/exts.rs, which observe and return their arguments"]
    r = chk.rng
    E = Evals(chk, ext=True)
    vals = [None, False, True, 0, 1, -1, 1.5, 2, 3, "", "a", "ab", "é", "😀", "e\u0301", "a😀b", [], [1], [1, 2], [[], []], {}, {"a": 1}, {"a": 1, "b": 2}, {"b": [1, 2, 3]}]
    doc = {"l": vals + [{"a": v} for v in vals] + [{"a": v, "b": r.choice(vals)} for v in vals], "a": 1, "s": "x😀", "b": [1, 2]}
    for c in FNCALLS:
        for op, x in [("==", "0"), ("==", "1"), ("==", "2"), (">", "0"), (">=", "1"), ("==", "3"), ("==", "@.a"), ("!=", "@.a"), ("==", "@.b"), ("==", "@.zz"), ("==", "null"), ("<", "10"), ("==", "110"), ("==", "111"), ("==", "112"), ("==", "100"), ("==", "'x'"), ("==", "true")]:
            E.add("$.l[?%s%s%s]" % (c, op, x), doc)
        for m in itertools.product("01", repeat=5) if c.startswith("mask_5") else []:
            E.add("$.l[?%s==%d]" % (c, int("".join(m))), doc)
        for e in r.sample(FNCALLS, 4):
            E.add("$.l[?%s%s%s]" % (c, r.choice(OPS), e), doc)
    for t in TESTS:
        for f in ("%s", "!(%s)", "(%s)", "%s&&@.a", "%s||@.b", "!(%s)&&@.a", "lv(%s)==1", "ll(%s)", "@[?%s]"):
            E.add("$.l[?%s]" % (f % t), doc)
            E.add("$..[?%s]" % (f % t), doc)
    # string lengths
    for _ in range(N(300, 3000)):
        x = "".join(r.choice("aé☺😀\u0301\u200d🇩🇪\\\"\n\t\u2028") for _ in range(r.randint(0, 12)))
        E.add("$[?length(@)==%d]" % (len(x) + r.choice([0, 0, 0, 1, -1]) if len(x) else 0), [x, x + "a", x[1:], [x], {x: x}])
    for c in ODD:
        k = r.randint(1, 3)
        E.add("$[?length(@)==%d]" % k, [c * k, c + "a", c, "a" + c, "a" + c + "a", c + c + "a", {c: c}])
    for _ in range(N(300, 3000)):
        v = r.choice([[0] * r.randint(0, 9), {str(k): k for k in range(r.randint(0, 9))}])
        E.add("$[?length(@)%s%d]" % (r.choice(OPS), r.randint(0, 9)), [v, v, 7])
        E.add("$[?count(@%s)%s%d]" % (r.choice([".*", "..*", "[0,0]", "[*,*]", "[0:3]", "..[0]"]), r.choice(OPS), r.randint(0, 9)), [v, [v, v], 7])
        E.add("$[?value(@%s)%s%s]" % (r.choice([".*", "..*", "[0,0]", "[0:1]", "[0]", "['0']", "..[0]"]), r.choice(OPS), r.choice(["0", "1", "@", "@.x", "$[2]"])), [v, [v], 7])
    E.go("function_tables")
    fns = dict(STD_FNS)
    fns.update(CUSTOM_FNS)
    g = Gen(r, fns=fns, names=["a", "b", "c"], qnames=["a", "b"], big=False)
    dg = DocGen(r, names=["a", "b", "c"])
    k = 0
    while k < N(3500, 50000):
        t = g.t_log(g.logical(4, 2), 0)
        if "(" in t:
            k += 1
            E.add("$..[?%s]" % t if r.random() < 0.5 else "$[?%s]" % t, dg.doc(4, 4, 50))
    E.go("random_calls")
    # environments of one's own: the functions that are called are the environment's
    import sessions

    ss = []
    g2 = Gen(r, names=["a", "b"], qnames=["a", "b"], big=False)
    for _ in range(N(250, 3000)):
        docs = [json.dumps(dg.doc(3, 4, 14)) for _ in range(2)]
        ops = [dict(o="fn", p=1, n=n, ps=p, r=q) for n, (p, q) in CUSTOM_FNS.items()]
        for _ in range(10):
            c = r.choice(["count(@.*)", "count(@..*)", "count($.*)", "length(@.a)", "value(@.*)", "length(@)"])
            t = r.choice(["$[?%s%s%d]", "$..[?%s%s%d]", "$[?@[?%s%s%d]]", "$.*[?%s%s%d]", "$[?!(%s%s%d)]"]) % (c, r.choice(OPS), r.choice([0, 1, 2, 10, 15, 20, 30]))
            if r.random() < 0.2:
                t = g2.text(g2.query())
            if numbers_ok(t):
                ops.append(dict(o="find", t=t, e=r.choice([1, 2, 2]), d=r.choice([1, 2])))
            t = "$..[?%s]" % g.t_log(g.logical(3, 2), 0)
            if numbers_ok(t) and len(t) < 120:
                ops.append(dict(o="parse", p=1, t=t, q=1))
                for _ in range(2):
                    ops.append(dict(o="eval", q=1, e=r.choice([1, 2]), d=r.choice([1, 2])))
        ss.append((docs, ops))
    sessions.judge(chk, "own_environments", ss, crates="DLEFG", own=True)
    # sizes of large things, counts of many nodes
    fs = some("length|count of|count below|no count|value of|every row by nodes|all pairs|long string|long astral string|nested counts|nested calls")
    grown(chk, sized(fs, "DLEFG") + [(f, n, c) for f in fs if f in SIZED for n in N([33000, 65535, 65536, 65537, 70000], [200, 33000, 70000, 300000] + EDGE) for c in "DLEFG"], small=True, only=NODES)
    chk.finish()


def c12():
    chk = Check("C12")
    chk.assumptions = ASSUME + [
        "category escapes are judged on characters whose category is listed in the specification",
        "patterns with '^' or '$', reversed ranges and reversed quantifiers are not judged",
        "patterns are small enough for the regex crate: nesting below 250, compiled size below its limit",
    ]
    r = chk.rng
    E = Evals(chk, cr="DLEFG")
    from regexes import subjects, small_patterns, RGen, bad_patterns

    subs = subjects()
    doc = json.dumps({"s": subs})

    def both(p, d=doc):
        lit = Gen(r).quote(p, 0) if all(ord(c) > 31 for c in p) else None
        for f in ("match", "search"):
            if lit is not None and r.random() < 0.5:
                E.add("$.s[?%s(@,%s)]" % (f, lit), text=d)
            else:
                x = json.loads(d)
                x["p"] = p
                E.add("$.s[?%s(@,$.p)]" % f, x)

    sp = small_patterns()
    for p in sp if THOROUGH else r.sample(sp, min(len(sp), 1000)):
        both(p)
    # characters that are easily taken for something else, in texts and patterns
    for c in ODD:
        d = json.dumps({"s": [c, "a" + c, c + "a", c * 2, "", "a", " ", "a" + c + "b", "\n" + c]})
        for p in r.sample([".", "a.", ".a", c, "[" + c + "]", "[^" + c + "]+", "[^a]", ".*", "a" + c + "b", c + "{2}", "(" + c + "|a)*", "[" + c + "a]?a"], N(3, 12)):
            both(p, d)
    E.go("small_patterns")
    for p in bad_patterns():
        both(p)
    g = RGen(r)
    texts = sp + bad_patterns()
    for _ in range(N(1500, 25000)):
        p = g.pattern()
        texts.append(p)
        both(p, json.dumps({"s": g.subjects(p)}))
        if r.random() < 0.25:
            q = g.corrupt(p)
            if q is not None:
                both(q)
                texts.append(q)
    E.go("random_patterns")
    # the recogniser of patterns against the grammar of RFC 9485 as data
    from machines import agreement
    from regexes import RCONTEXTS, RTOKENS

    sets = [(RCONTEXTS, RTOKENS, 2)] + [([c], RTOKENS, 3) for c in RCONTEXTS[:4] if THOROUGH]
    agreement(chk, "iregexp", sets, texts)
    # arguments that are not strings, absent arguments, patterns from the document
    vals = [None, True, 1, 1.5, "a", "1", "", [], ["a"], {}, {"a": "a"}, "ab", "null", "true"]
    d = {"l": [{"a": v, "b": w} for v in vals for w in (vals if THOROUGH else r.sample(vals, 5))], "p": "a.*", "q": ["a", "b|a", 1, None, "("]}
    for f in ("match", "search"):
        for a in ("@.a", "@.b", "@", "@.zz", "'ab'", "1", "null", "true", "value(@.*)", "length(@.a)", "$.p", "value(@..a)"):
            for b in ("@.b", "@.a", "$.p", "'a'", "''", "'.*'", "1", "null", "@.zz", "$.q[0]", "$.q[1]", "$.q[2]", "$.q[4]", "value($.q[3])"):
                E.add("$.l[?%s(%s,%s)]" % (f, a, b), d)
                if THOROUGH or r.random() < 0.2:
                    E.add("$.l[?!%s(%s,%s)]" % (f, a, b), d)
    E.go("arguments")
    # long strings and long patterns
    fs = list(dict.fromkeys(SUBJECTS + [f for f, x in FAMILIES.items() if x["doc"].startswith("pat-") or "literal pattern" in f]))
    grown(chk, sized(fs, "DLEFG") + [(f, n, c) for f in SUBJECTS for n in (65535, 65536, 70000) for c in "DLEFG"] + [(f, n, c) for f in some("long pattern|searched|alternatives|literal pattern|long class") if FAMILIES[f]["grow"] in ("little", "flat") and f in fs and f != "nested literal pattern" for n in N([127, 128, 129, 254, 255, 256, 257, 1000], [127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 4096, 5000]) for c in "DLEFG"], small=True, only=NODES)
    chk.finish()


PATHNAMES = ["a", "b", "", " ", "'", '"', "\\", "\\\\", "a'b", "'a'", "']['", "a\\'b", "/", "\b", "\t", "\n", "\f", "\r", "\x00", "\x01", "\x0b", "\x0e", "\x1f", "\x7f", "\x80", "é", "☺", "😀", "\u2028", "\ud7ff", "\ue000", "\uffff", "0", "1", "-1", "*", "$", "@", "..", "a.b", "[0]", "\\n", "\\u0041", "a b", "\u00a0", "ab" * 30]


def c14():
    chk = Check("C14")
    chk.assumptions = ASSUME
    r = chk.rng
    E = Evals(chk, paths=True, nodes=False)
    allnames = {n: {m: i for i, m in enumerate(r.sample(PATHNAMES, 4))} for n in PATHNAMES}
    for q in ("$", "$.*", "$..*", "$[*]", "$..['a']", "$[?@]", "$..[?@>1]", "$.*.*", "$[?@.*]"):
        E.add(q, allnames)
        E.add(q, list(range(12)))
        E.add(q, [[0] * 11, {"a": [1, {"b": 2}]}])
        E.add(q, {str(i): [i] for i in range(11)})
    for n in PATHNAMES:
        for m in r.sample(PATHNAMES, N(6, len(PATHNAMES))):
            E.add("$..*", {n: [{m: 1}, 2], "z": {m: {n: []}}})
            if m >= " ":
                E.add("$..[%s]" % Gen(r).quote(m, 0.3), {n: [{m: 1}, 2], "z": {m: {n: []}}})
    # every control character and some others
    for c in list(range(0, 0x100)) + [0x2028, 0xFFFD, 0x10000, 0x10FFFF]:
        E.add("$..*", {"x" + chr(c): [0], chr(c) * 2: {"'" + chr(c): 1}})
    for c in ODD:
        E.add(r.choice(["$..*", "$[?@]"]), {c: [0], "b" + c + "b": {c + "'": 1, c * 2: []}, "b": 2})
    E.go("names")
    g = Gen(r, names=["a", "b", "c"], qnames=[n for n in PATHNAMES if all(c >= " " for c in n)], big=False)
    dg = DocGen(r, names=PATHNAMES + ["a", "b", "c"] * 6)
    for _ in range(N(4000, 60000)):
        E.add(g.text(g.query()), dg.doc(4, 4, 60))
    # indexes as normalized: from slices, negative indexes, filters, descendants
    for _ in range(N(600, 5000)):
        n = r.choice([1, 2, 3, 9, 10, 11, 12, 30, 101])
        q = r.choice(["$[%d]" % -r.randint(1, n), "$[::-1]", "$[-3:]", "$[::%d]" % r.choice([-3, -1, 2, 5]), "$[?@>%d]" % r.randint(0, n), "$..[-1]", "$[*]", "$[-1,0,-1]"])
        E.add(q, list(range(n)))
        E.add("$.a" + q[1:], {"a": list(range(n)), "b": 0})
    E.go("random_queries")
    # long arrays and deep documents
    deep = [f for f, x in FAMILIES.items() if f in PROG and x["doc"].startswith("deep")]
    grown(chk, [(f, n, c) for f in WIDE + ["long name", "long shorthand"] for n in N([256, 1100, 65537, 140000], [255, 256, 257, 300, 1100, 5000] + EDGE + [70000, 300000]) for c in "FG"] + [(f, n, c) for f in deep for n in N([30, 250], [10, 30, 100, 255, 256, 257, 400]) for c in "FG"], small=True)
    # the path is a query that selects exactly that node, in every parser
    jobs, want = [], []
    for _ in range(N(250, 2500)):
        d = dg.doc(4, 4, 40)
        jobs.append(dict(op="eval", q="$..*", dt=json.dumps(d), paths=True, cr="DEFG"))
    res = run_jobs(jobs)
    E2 = Evals(chk, paths=True, cr="DLEFG")
    from parsing import Parses

    P = Parses(chk, "C14")
    for j, x in zip(jobs, res):
        for c, o in x["r"].items():
            if o.get("ok") != 1:
                continue
            for p in r.sample(o["paths"], min(2, len(o["paths"]))):
                t = s(p)
                E2.add(t, text=j["dt"])
                # the hand written parser rejects escaped control characters (known finding of C01)
                P.add(t, cr="BCDEFG" if "\\u00" in t else "ABCDEFG")
    E2.go("paths_as_queries")
    P.go("paths_as_texts")
    chk.finish()


def mixed(r, n, E, ext=False):
    fns = dict(STD_FNS)
    if ext:
        fns.update(CUSTOM_FNS)
    names = ["a", "b", "c"]
    gs = [
        Gen(r, fns=fns, names=names, qnames=["a", "b", "", "☺", "a b", "'"], big=False),
        Gen(r, fns=fns, names=names, qnames=["a", "b"], big=True, maxseg=6),
        Gen(r, fns=fns, names=["a"], qnames=["b"], big=False, maxseg=3),
    ]
    gs[2].patterns = ["a"]
    for g in gs:
        g.strs = ["a", "b", "", "ab", "[ab]", "a.*", "c|ab", "☺", "b+", "1"]
    dgs = [DocGen(r, names=names), DocGen(r, names=names + ["", "☺", "a b", "'"]), DocGen(r, names=["a", "b"], scalars=[1, 2, "a", None])]
    for _ in range(n):
        g = r.choice(gs)
        E.add(g.text(g.query(3 if r.random() < 0.3 else 2)), r.choice(dgs).doc(r.choice([3, 4, 5]), 4, 80))


def c15():
    chk = Check("C15")
    chk.assumptions = ASSUME
    r = chk.rng
    E = Evals(chk, paths=True)
    from machines import sentences, evals

    sents = sentences(chk)
    docs = [{"a": [{"a": 1, "b": "b"}, {"b": [0, 1, 2]}, 1, "b"], "b": {"a": True, "b": "x"}}, [[1, {"a": 0}], {"b": True, "a": {"b": 1}}, "b"], {"b": 1}]
    for t in r.sample(sents, N(1500, min(len(sents), 40000))):
        E.add("".join(t), r.choice(docs))
    for q, d in evals(chk)[:: 1 if THOROUGH else 3]:
        E.add(q, text=d)
    E.go("machine_behaviours")
    mixed(r, N(4500, 80000), E)
    E.go("random_queries")
    X = Evals(chk, paths=True, ext=True)
    mixed(r, N(900, 20000), X, ext=True)
    X.go("random_queries_with_custom_functions")
    # errors agree
    from gen import mutate
    from parsing import Parses

    P = Parses(chk, "C15")
    g = Gen(r)
    for _ in range(N(1200, 20000)):
        P.add(mutate(r, g.text(g.query(), False), 1), cr="DEF")
    P.go("error_texts")
    # everything that grows
    grown(chk, sized([f for f, x in FAMILIES.items() if x["ok"] and x["grow"] != "quad"], "DLEFG", None if THOROUGH else dict(flat=[256, 2000], nest=[65, 130], chain=[130, 257], quad=[60], little=[40])), small=True, only=NODES)
    chk.finish()


def c19():
    chk = Check("C19")
    chk.assumptions = ASSUME + ["a selecting number is an integer of the document written without fraction or exponent"]
    r = chk.rng
    E = Evals(chk, paths=True)
    # what the embedded query finds, on what it is applied to
    keys = [None, True, False, 0, 1, 2, -1, -2, 5, -9, 1.5, "a", "b", "zz", "", "0", "1", "☺", [], [0], ["a"], {}, {"a": "a"}, 2**40, -(2**40), 10**18, 2**31, -(2**31), 2**32, 2**32 + 1, -(2**32) + 1, 2**53, 2**63 - 1, -(2**63), 2**63, 2**63 + 1, 2**64 - 1, 2**64 - 2, 2**64 - 3, 2**56, 2**48 + 1, 65536, 256, 255, -256]
    hosts = [[10, 11, 12], [], {"a": 1, "b": [1], "": 3, "0": 4, "1": 5, "☺": 6}, {}, "abc", 7, None, [[1, 2], {"a": 3}]]
    for k in keys:
        for h in hosts:
            d = {"k": k, "h": h, "l": [k], "o": {"a": k}}
            for q in ("$.h[$.k]", "$.h[$.l[0]]", "$.h[$['o']['a']]", "h[k]", "$.h[$.k,$.k]", "h[$.l[-1]]", "$['h'][$.o.a]"):
                E.add(q, d, cr="G")
        d = {"k": k, "h": hosts, "i": 1}
        for q in ("$.h[*][$.k]", "$..[$.k]", "$.h[$.k]", "$.h[?@[$.k]]", "$.h[?@[$.k]==1]", "$.h[?count(@[$.k])==1]", "$.h[$.i,$.k]", "$.h[$.k,*]", "$.h[$.h[$.k]]" if False else "$.h[$.i][$.k]", "$.h[0][$.k]", "$.h[2][$.k]"):
            E.add(q, d, cr="G")
    for q in ("$.a[$]", "$[$]", "[$]", "a[$.zz]", "$.a[$.b.c.d]", "$.a[$.b[9]]"):
        for d in ({"a": [1, 2], "b": 1}, 1, "a", {"a": {"a": 1}}, [1, [0]]):
            E.add(q, d, cr="G")
    for a in ALIKE:
        for b in r.sample(ALIKE, N(4, len(ALIKE))):
            E.add(r.choice(["$.o[$.k]", "o[k]", "$[*][$.k]", "$..[$.k]", "$.o[$.k,$.k]"]), {"k": a, "o": {a: 1, b: 2} if r.random() < 0.5 else {b: 1}, "l": [{b: 1}, {a: 2}]}, cr="G")
    E.go("selectors")
    names = ["a", "b", "c", "k", "i"]
    gx = Gen(r, ext=True, names=names, qnames=["a", "b"], big=False)
    sc = [None, True, 0, 1, 2, -1, "a", "b", "c", "zz", 1.5]
    dg = DocGen(r, names=names, scalars=sc)
    for _ in range(N(4500, 60000)):
        d = dg.doc(4, 4, 60)
        if isinstance(d, dict) and r.random() < 0.7:
            d["k"], d["i"] = r.choice(["a", "b", "c"]), r.choice([0, 1, -1])
        tree = gx.query()
        E.add(gx.text(tree, implicit=r.random() < 0.5), d, cr="G")
        if tree and tree[0][0] == "child" and r.random() < 0.3:
            E.add(gx.text(tree, implicit=True), d, cr="G")
            E.add(gx.text(tree, implicit=False), d, cr="G")
    E.go("random_extended_queries")
    mixed(r, N(1500, 20000), Evals2 := Evals(chk, paths=True, cr="FG"))
    Evals2.go("standard_queries")
    # the syntax: exactly the two extensions, on top of the standard
    from parsing import Parses

    P = Parses(chk, "C19")
    base = ["$", "$.a", "$.a.b", "$['a']", "$[0]", "$[-1].b", "$.a['b'][0]", "a", "a.b", "['a']", "[0]", "a[0]", "_x", "é.a", "$.*", "$..a", "$[0:1]", "$['a','b']", "$[?@]", "@", "@.a", "$ .a", "$[ 0 ]", "a .b", "*", "..a", "1", "'a'", "true", "null", "$$", "a$", "-1", "0.a", "a.*", "a..b", "a[*]", "a['b',0]", "['a','b']", "[0][1]", "[$.a]", "[a]", "a[b]", "$.a[$.b]", "$[$.b][$.c]"]
    for b in base:
        for f in ("%s", "$[%s]", "$.x[%s]", "$..[%s]", "$.x[0,%s]", "$.x[%s,'a']", "$.x[ %s ]", "x[%s]", "[%s]", "$[?@[%s]]", "$[?@[%s]==1]", "$[?@.a==%s]", "$[?%s]", "$[?$[%s]]", "$[?count(@[%s])>1]", "$[?length(%s)>1]", " %s", "%s ", "%s,0", "$[?@.a,%s]", "$[%s:]", "$.%s"):
            P.add(f % b, cr="FG")
    for _ in range(N(2500, 40000)):
        t = gx.text(gx.query(), implicit=r.random() < 0.6)
        P.add(t if r.random() < 0.6 else mutate(r, t), cr="G" if r.random() < 0.8 else "FG")
    P.go("extended_texts")
    # many and nested queries as selectors, long implicit roots
    grown(chk, sized(some("query selectors|implicit root|not ascii", ok=False), "G", dict(flat=[300, 3000, 20000], nest=[20, 60, 130, 260], chain=[250], quad=[80], little=[60])), small=True, only=NODES | ACCEPT)
    chk.finish()


CHECKS = {"C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C14": c14, "C15": c15, "C19": c19}
