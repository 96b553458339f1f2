"""Seeded generators of queries, documents and mutations. They only choose
inputs: what the outcome should be is decided by the specification."""
import json, random, unicodedata

NAMES = ["a", "b", "c", "ab", "_x", "a1", "☺", "é"]
QNAMES = NAMES + ["", " ", "'", '"', "\\", "a b", "a.b", "*", "0", "-1", "\n", "\t", "\x7f", "/", "😀", "\u2028", "\ud7ff", "\ue000", "$", "@", "a'b\"c", "\\u0041", "]"]
STD_FNS = {"length": ("V", "V"), "count": ("N", "V"), "match": ("VV", "L"), "search": ("VV", "L"), "value": ("N", "V")}
CUSTOM_FNS = {"vv": ("V", "V"), "vl": ("V", "L"), "ll": ("L", "L"), "lv": ("L", "V"), "nl": ("N", "L"), "nn": ("N", "N"), "pick": ("VLN", "V"), "one": ("", "V"), "mask_5": ("VVVVV", "V"), "mix4": ("LNVN", "N")}
# names that are easily taken for one another
ALIKE = ["a", "A", "á", "a\u0301", "\u00e1\u0301", "ａ", "а", "a ", " a", "a\t", "\na", "a\r\n", "a\u00a0", "\u00a0a", "a\u2003", "\u3000a", "a\u200b", "\ufeffa", "a\ufeff", "a\u2028", "a\u0085", "a\x00", "\x00a", "a\x7f", "a.", ".a", "a/", "aa", "ab", "ba", "a'", '"a', "a\\", "\\a", "ß", "ss", "SS", "ẞ", "ı", "i", "I", "İ", "ſ", "s", "K", "k", "ﬁ", "fi", "1", "01", "1.0", "+1", "-1", "-0", "0", "00", "true", "null", "½", "\U0001d552", "\U0001f600", "\U0001f601", "\U0001f600\ufe0f", "\ud7ff", "\ue000", "\uffff", "\U0010ffff"]
# characters that code is tempted to treat specially: every blank, control and
# format character of Unicode, the noncharacters, some that combine or join
ODD = [chr(c) for c in range(0x20000) if unicodedata.category(chr(c)) in ("Zs", "Zl", "Zp", "Cc", "Cf")]
ODD += [chr(c) for c in (0xE0001, 0xE0020, 0xE0061, 0xE007F, 0xE0100, 0xFE0E, 0xFE0F, 0x301, 0x20DD, 0x200D, 0x34F, 0x115F, 0x3164, 0xFFA0, 0x2800, 0xFFFC, 0xFFFD, 0xF8FF, 0xE000, 0xD7FF, 0x1F3FB)]
ODD += [chr(c) for c in range(0xFDD0, 0xFDF0)] + [chr(p * 0x10000 + c) for p in range(17) for c in (0xFFFE, 0xFFFF)]
ODD = list(dict.fromkeys(ODD))
OPS = ["==", "!=", "<", "<=", ">", ">="]
NUMS = ["0", "1", "2", "3", "-1", "10", "100", "-0", "0.5", "-0.5", "1.5", "-1.5", "1e2", "1E2", "1e-2", "1E-2", "1e+2", "0.0", "-0.0", "0e5", "-0e1", "-0.0e-3", "12.50", "1.0",
        "9007199254740991", "-9007199254740991", "1e10", "123456789012345", "1e20", "1e100", "-1e100", "2.5e-10", "1e-300", "100000000000000000000", "0.1", "0.10", "1e15", "5e-1", "20e-1", "1234.5678e2"]


class Gen:
    def __init__(self, rng, fns=None, ext=False, names=None, qnames=None, filters=True, maxseg=4, regex=True, big=True):
        self.r = rng
        self.fns = dict(STD_FNS if fns is None else fns)
        self.ext = ext
        self.names = names or NAMES
        self.qnames = qnames or QNAMES
        self.filters = filters
        self.maxseg = maxseg
        self.big = big
        self.nums = NUMS
        self.strs = None
        self.patterns = ["a", "a.*", "[a-c]+", "a|b", ".", "", "(ab)?c", "\\\\.", "[^a]b*"]

    # ---- trees
    def query(self, depth=2, maxseg=None):
        m = self.maxseg if maxseg is None else maxseg
        return [self.segment(depth) for _ in range(self.r.choice([0, 1, 1, 2, 2, 3, m][: 3 + m]) if m else 0)]

    def segment(self, depth):
        r = self.r
        n = r.choice([1, 1, 1, 1, 1, 2, 2, 3])
        return ("desc" if r.random() < 0.2 else "child", [self.selector(depth) for _ in range(n)])

    def name(self):
        return self.r.choice(self.names if self.r.random() < 0.7 else self.qnames)

    def int_(self):
        r = self.r
        x = r.random()
        if x < 0.8 or not self.big:
            return r.randint(-5, 5)
        return r.choice([10, -10, 100, 2**31, -(2**31), 2**32, 2**53 - 1, -(2**53) + 1, 2**53 - 2, 10**15])

    def selector(self, depth):
        r = self.r
        x = r.random()
        if self.filters and depth > 0 and x < 0.30:
            return ("filter", self.logical(depth))
        if self.ext and x > 0.85:
            return ("sq", self.singular())
        y = r.random()
        if y < 0.45:
            return ("name", self.name())
        if y < 0.65:
            return ("index", self.int_())
        if y < 0.80:
            o = lambda p: self.int_() if r.random() < p else None
            return ("slice", o(0.6), o(0.6), o(0.5))
        return ("wild",)

    def singular(self, maxseg=3):
        r = self.r
        return [("child", [("name", self.name()) if r.random() < 0.7 else ("index", self.int_())]) for _ in range(r.randint(0, maxseg))]

    def lit(self):
        r = self.r
        x = r.random()
        if x < 0.4:
            return ("num", r.choice(self.nums))
        if x < 0.7:
            return ("str", self.string())
        return (r.choice(["true", "false", "null"]),)

    def string(self):
        # a literal with quotes in it is printed wrongly (known finding of C06)
        while True:
            x = self.name() if self.strs is None else self.r.choice(self.strs)
            if self.strs is not None or not ("'" in x or '"' in x):
                return x

    def q(self, singular, depth):
        return (self.r.choice(["rel", "rel", "rel", "abs"]), self.singular() if singular else self.query(depth - 1, 2))

    def call(self, ret, depth):
        c = [n for n, (p, t) in self.fns.items() if t == ret]
        if not c:
            return None
        n = self.r.choice(c)
        return ("fn", n, [self.arg(t, depth - 1) for t in self.fns[n][0]])

    def arg(self, t, depth):
        r = self.r
        if t == "V":
            x = r.random()
            if x < 0.55:
                return self.q(True, depth)
            if x < 0.7 and depth > 0:
                return self.call("V", depth) or self.lit()
            return self.lit()
        if t == "N":
            if r.random() < 0.3 and depth > 0:
                f = self.call("N", depth)
                if f:
                    return f
            return self.q(False, depth)
        x = r.random()
        if x < 0.3:
            return self.q(False, depth)
        if x < 0.5 and depth > 0:
            f = self.call("L", depth)
            if f:
                return f
        return self.logical(depth)

    def operand(self, depth):
        r = self.r
        x = r.random()
        if x < 0.45:
            return self.q(True, depth)
        if x < 0.65 and depth > 0:
            f = self.call("V", depth)
            if f:
                return f
        return self.lit()

    def logical(self, depth, nest=2):
        r = self.r
        x = r.random()
        if nest > 0 and x < 0.16:
            return ("or", [self.logical(depth, nest - 1) for _ in range(r.choice([2, 2, 3]))])
        if nest > 0 and x < 0.34:
            return ("and", [self.logical(depth, nest - 1) for _ in range(r.choice([2, 2, 3]))])
        if x < 0.46:
            return ("not", self.logical(depth, nest - 1) if nest > 0 else self.test(depth))
        if x < 0.75:
            return ("cmp", r.choice(OPS), self.operand(depth), self.operand(depth))
        return self.test(depth)

    def test(self, depth):
        if self.r.random() < 0.3:
            f = self.call(self.r.choice("LLN"), depth)
            if f:
                return f
        return self.q(False, depth)

    # ---- text
    def sp(self, p=0.12):
        r = self.r
        if r.random() >= p:
            return ""
        return "".join(r.choice(" \t\n\r") for _ in range(r.choice([1, 1, 2, 3])))

    def quote(self, s, esc=0.08):
        r = self.r
        q = r.choice("'\"")
        o = []
        for c in s:
            n = ord(c)
            short = {8: "b", 12: "f", 10: "n", 13: "r", 9: "t", 47: "/", 92: "\\", ord(q): q}
            must = n < 32 or c == q or c == "\\"
            if must or r.random() < esc:
                if n in short and (n < 32 or r.random() < 0.7):
                    o.append("\\" + short[n])
                else:
                    u = [n] if n < 0x10000 else [0xD800 + ((n - 0x10000) >> 10), 0xDC00 + ((n - 0x10000) & 0x3FF)]
                    o.append("".join("\\u" + (("%04x" if r.random() < 0.5 else "%04X") % x) for x in u))
            else:
                o.append(c)
        return q + "".join(o) + q

    def shorthand_ok(self, n):
        return bool(n) and all(c.isascii() and (c.isalnum() or c == "_") or ord(c) >= 0x80 for c in n) and not n[0].isdigit()

    def t_segs(self, segs, ws=True, tight=False):
        r = self.r
        o = []
        for k, sels in segs:
            if ws:
                o.append(self.sp())
            one = sels[0] if len(sels) == 1 else None
            d = ".." if k == "desc" else "."
            if one and one[0] == "name" and self.shorthand_ok(one[1]) and r.random() < 0.6:
                o.append(d + one[1])
            elif one and one[0] == "wild" and r.random() < 0.6:
                o.append(d + "*")
            else:
                s = (lambda: "") if tight else self.sp
                o.append((".." if k == "desc" else "") + "[" + s() + (s() + "," + s()).join(self.t_sel(x) for x in sels) + s() + "]")
        return "".join(o)

    def t_sel(self, x):
        k = x[0]
        if k == "name":
            return self.quote(x[1])
        if k == "index":
            return str(x[1])
        if k == "wild":
            return "*"
        if k == "slice":
            f = lambda v: "" if v is None else str(v)
            o = f(x[1])
            o += (self.sp() if o else "") + ":"
            o += self.sp() + f(x[2])
            if x[3] is not None or self.r.random() < 0.2:
                o += self.sp() + ":"
                if x[3] is not None:
                    o += self.sp() + f(x[3])
            return o
        if k == "filter":
            return "?" + self.sp() + self.t_log(x[1], 0)
        if k == "sq":
            segs = x[1]
            if segs and self.r.random() < 0.4:
                n = segs[0][1][0]
                rest = self.t_segs(segs[1:], tight=True)
                if n[0] == "name" and self.shorthand_ok(n[1]) and self.r.random() < 0.6:
                    return n[1] + rest
                return "[" + self.t_sel(n) + "]" + rest
            return "$" + self.t_segs(segs, tight=True)
        raise ValueError(k)

    def t_op(self, x):
        """comparison operand or value"""
        k = x[0]
        if k == "num":
            return x[1]
        if k == "str":
            return self.quote(x[1])
        if k in ("true", "false", "null"):
            return k
        if k in ("rel", "abs"):
            return ("@" if k == "rel" else "$") + self.t_segs(x[1], tight=True)
        return self.t_fn(x)

    def t_fn(self, x):
        a = (self.sp() + "," + self.sp()).join(self.t_arg(y) for y in x[2])
        return x[1] + "(" + self.sp() + a + self.sp() + ")"

    def t_arg(self, x):
        if x[0] in ("rel", "abs"):
            return ("@" if x[0] == "rel" else "$") + self.t_segs(x[1])
        if x[0] in ("num", "str", "true", "false", "null", "fn"):
            return self.t_op(x)
        return self.t_log(x, 0)

    # level: 0 or, 1 and, 2 basic
    def t_log(self, x, level):
        r = self.r
        k = x[0]
        sp = self.sp
        if k in ("or", "and"):
            own = 0 if k == "or" else 1
            op = "||" if k == "or" else "&&"
            t = (sp() + op + sp()).join(self.t_log(y, own + 1) for y in x[1])
            paren = level > own
        elif k == "not":
            y = x[1]
            if y[0] in ("rel", "abs", "fn") and r.random() < 0.8:
                t = "!" + sp() + self.t_log(y, 3)
            else:
                t = "!" + sp() + "(" + sp() + self.t_log(y, 0) + sp() + ")"
            paren = level > 2
        elif k == "cmp":
            t = self.t_op(x[2]) + sp(0.4) + x[1] + sp(0.4) + self.t_op(x[3])
            paren = level > 2
        elif k in ("rel", "abs"):
            t = ("@" if k == "rel" else "$") + self.t_segs(x[1])
            paren = False
        elif k == "fn":
            t = self.t_fn(x)
            paren = False
        else:
            raise ValueError(k)
        if paren or (level <= 2 and r.random() < 0.08):
            t = "(" + sp() + t + sp() + ")"
        return t

    def text(self, segs, implicit=False):
        if implicit and self.ext and segs and segs[0][0] == "child":
            k, sels = segs[0]
            if len(sels) == 1 and sels[0][0] == "name" and self.shorthand_ok(sels[0][1]) and self.r.random() < 0.6:
                return sels[0][1] + self.t_segs(segs[1:])
            s = self.sp
            return "[" + s() + (s() + "," + s()).join(self.t_sel(x) for x in sels) + s() + "]" + self.t_segs(segs[1:])
        return "$" + self.t_segs(segs)


ALPHA = "$@.[]*?:,!()&|=<>'\"\\ab_01-+eE \n\tu/trn\0{};~é☺😀" + "\x01\x7f\xa0"
TOKENS = ["$", "@", ".", "..", "[", "]", "*", "?", ":", ",", "!", "(", ")", "&&", "||", "==", "!=", "<", "<=", ">", ">=", "'a'", '"b"', "''", "a", "b", "0", "1", "-1", "01", "-0", "1.5", "1e2", "true", "false", "null",
          "length(", "count(", "match(", "value(", "@.a", "$.b", "@.*", " ", "\n", "&", "|", "=", "-", "'", '"', "\\", "\\u0041", "\\ud83d", "\\ude00", "\0", "1e", "1.", ".5", "+1", "é", "nul", "?@", "[0]", "['a']", "[?@.a]", "()", "[]", "?", "!@", "(@.a)", "==1", "&&@.a", "||@", ",0", ":1", "1:2", "::"]


def mutate(r, t, n=None):
    for _ in range(n or r.choice([1, 1, 1, 2, 2, 3])):
        x = r.random()
        i = r.randint(0, len(t))
        if x < 0.25 and t:
            i = min(i, len(t) - 1)
            t = t[:i] + t[i + 1 :]
        elif x < 0.40:
            t = t[:i] + r.choice(ALPHA) + t[i:]
        elif x < 0.65:
            t = t[:i] + r.choice(TOKENS) + t[i:]
        elif x < 0.75 and t:
            i = min(i, len(t) - 1)
            t = t[:i] + r.choice(ALPHA) + t[i + 1 :]
        elif x < 0.83 and len(t) > 1:
            i = min(i, len(t) - 2)
            t = t[:i] + t[i + 1] + t[i] + t[i + 2 :]
        elif x < 0.90:
            t = t[:i]
        elif x < 0.96 and t:
            j = r.randint(0, len(t))
            i, j = min(i, j), max(i, j)
            if j - i < 20:
                t = t[:j] + t[i:j] + t[j:]
        else:
            j = r.randint(0, len(t))
            i, j = min(i, j), max(i, j)
            if j - i < 8:
                t = t[:i] + t[j:]
    return t


# ---- documents
ODDNAMES = ["", "", "", "0", "1", "-1", "*", "$", "@", " ", "'", '"', "\\", "a.b", "[0]", "..", "null", "true", "length", "é", "😀", "\x00", "\n", "A", "?", "b'", "aa"]


class DocGen:
    def __init__(self, rng, names=None, scalars=None):
        self.r = rng
        self.names = names or ["a", "b", "c", "ab", "_x", "☺"]
        self.scalars = scalars or [None, True, False, 0, 1, 2, -1, 1.0, 1.5, -0.5, 100, "a", "b", "", "ab", "c", "abc", "☺", "1"]

    def value(self, depth):
        r = self.r
        x = r.random()
        if depth <= 0 or x < 0.25:
            return r.choice(self.scalars)
        if x < 0.6:
            return [self.value(depth - 1) for _ in range(r.choice([0, 1, 2, 3, 3, 4]))]
        names = r.sample(self.names, r.randint(0, min(4, len(self.names))))
        if r.random() < 0.12:
            # a member with a name that means something elsewhere
            names.insert(r.randint(0, len(names)), r.choice(ODDNAMES))
        return {n: self.value(depth - 1) for n in names}

    def doc(self, depth=3, lo=2, hi=60):
        for _ in range(50):
            v = self.value(depth)
            n = size(v)
            if lo <= n <= hi:
                return v
        return [1]


def size(v):
    if isinstance(v, list):
        return 1 + sum(map(size, v))
    if isinstance(v, dict):
        return 1 + sum(map(size, v.values()))
    return 1


class Terms:
    """Expressions that hold a query at the bottom of a pile of calls, filters and
    operators of the right types, the other operands being queries too."""

    def __init__(self, r, ext, probes=None):
        self.r, self.ext = r, ext
        self.probes = probes or ["$.a", "$.s", "@.a", "@.s", "@", "$", "$.l[0]", "@.b", "$.b", "@['a']", "$['zz']", "@.zz", "$.o.a", "@.o.s"]

    def nodes(self, d):
        r = self.r
        if d <= 0:
            return r.choice(self.probes + ["@.*", "$.*", "$.l.*", "@..a", "$..s"])
        c = r.randint(0, 5 if self.ext else 3)
        if c <= 1:
            return "%s[?%s]" % (r.choice(["@", "$.l", "$", "@.o", "$.o", "$.", "@.l"]), self.logical(d - 1))
        if c == 2:
            return "%s[%s]" % (r.choice(["@", "$.l", "$.o"]), r.choice(["*,?%s", "?%s,0", "?%s,?@.a", "'a',?%s"]) % self.logical(d - 1))
        if c == 3:
            return r.choice(["$", "@"]) + r.choice(["..[?%s]", ".*[?%s]", "[?%s].a", "[?%s].*"]) % self.logical(d - 1)
        if c == 4:
            return "nn(%s)" % self.nodes(d - 1)
        return "mix4(%s,%s,%s,%s)" % (self.logical(d - 1), self.nodes(r.randint(0, d - 1)), self.value(r.randint(0, d - 1)), self.nodes(d - 1))

    def value(self, d):
        r = self.r
        if d <= 0:
            return r.choice(self.probes + ["1", "'abc'", "2", "null", "true"])
        c = r.randint(0, 7 if self.ext else 4)
        if c == 0:
            return "value(%s)" % self.nodes(d - 1)
        if c == 1:
            return "count(%s)" % self.nodes(d - 1)
        if c <= 4:
            return "length(%s)" % self.value(d - 1)
        if c == 5:
            return "lv(%s)" % self.logical(d - 1)
        if c == 6:
            return "vv(%s)" % self.value(d - 1)
        if r.random() < 0.5:
            return "pick(%s,%s,%s)" % (self.value(d - 1), self.logical(r.randint(0, d - 1)), self.nodes(d - 1))
        return "mask_5(%s)" % ",".join(self.value(r.randint(0, d - 1)) for _ in range(5))

    def compared(self, d):
        # what may stand beside a comparison operator
        t = self.value(d)
        return t

    def logical(self, d):
        r = self.r
        if d <= 0:
            return r.choice(["", "!"]) + r.choice(self.probes)
        c = r.randint(0, 9 if self.ext else 7)
        if c <= 2:
            a, b = self.compared(d - 1), self.compared(r.randint(0, d - 1))
            if r.random() < 0.5:
                a, b = b, a
            return "%s%s%s" % (a, r.choice(["==", "!=", "<", "<=", ">", ">=", "=="]), b)
        if c == 3:
            return "%s(%s)" % (r.choice(["!", ""]), self.logical(d - 1))
        if c == 4:
            return "%s&&%s" % (self.logical(d - 1), self.logical(r.randint(0, d - 1)))
        if c == 5:
            return "%s||%s" % (self.logical(r.randint(0, d - 1)), self.logical(d - 1))
        if c == 6:
            return "%s(%s,%s)" % (r.choice(["match", "search"]), self.value(d - 1), r.choice(["'a.*'", "$.s", "@.s", "'b'", self.value(0)]))
        if c == 7:
            n = self.nodes(d - 1)
            return n if n[0] in "@$" else "nl(%s)" % n
        if c == 8:
            return "%s%s(%s)" % (r.choice(["", "!"]), *r.choice([("ll", self.logical(d - 1)), ("nl", self.nodes(d - 1)), ("nn", self.nodes(d - 1))]))
        return "vl(%s)" % self.value(d - 1)
