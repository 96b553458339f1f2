"""Patterns and subjects for match and search."""
import itertools, unicodedata

CHARS = "abcABC012 \t\n\r-_.,:^$*+?()[]{}|\\/&~!é\u00c9\u00df\u01c5\u02b0\u05d0\u0301\u0661\u2160\u00bd\u00bb\u00ab\u2028\u2029\u00a0\u20ac\u2200\u00ad\ue000☺😀\x00\x7f'\"#%@=<>"
CATS = ["L", "Ll", "Lm", "Lo", "Lt", "Lu", "M", "Mn", "Mc", "Me", "N", "Nd", "Nl", "No", "P", "Pc", "Pd", "Pe", "Pf", "Pi", "Po", "Ps", "Z", "Zl", "Zp", "Zs", "S", "Sc", "Sk", "Sm", "So", "C", "Cc", "Cf", "Co"]


def subjects():
    one = ["", *"abcABC0 -.^&~[]\n\r\t|\\é☺😀_,$/"]
    two = ["".join(t) for t in itertools.product("ab", repeat=2)] + ["ac", "ca", "a\n", "\ra", "a.", "a-", "&&", "~~", "--", "0a", "😀a", "é☺", "a b", "AB", "cc"]
    more = ["aaa", "aab", "aba", "abab", "bab", "abc", "cab", "a\nb", "a\rb", "aaaa", "aaaaa", "a" * 10, "a" * 11, "b" * 10, "abba", "xax", "a|b", "[a]", "(a)", "a{2}", "a*", "\u2028", "\x00", "bbb", "zzz", "A1", "a😀b"]
    return one + two + more


# texts of one or two of these in these contexts: recogniser against grammar
RCONTEXTS = [("", ""), ("a", ""), ("(", ")"), ("[", "]"), ("[^", "]"), ("[a", "]"), ("a{", "}"), ("\\", ""), ("\\p{", "}"), ("[\\P{", "}]"), ("[a-", "]"), ("(a|", ")*"), ("[-", "-]"), ("a{1", ",2}")]
RTOKENS = ["a", "b", "-", "^", ".", "[", "]", "(", ")", "{", "}", "|", "*", "+", "?", ",", "0", "12", "\\", "\\n", "\\.", "\\-", "\\]", "\\^", "\\d", "\\p{L}", "\\P{Nd}", "\\p", "p{Lu}", "L", "Lu", "Z", "Zs", "Cs", "Cn", "M", "Me", "N", "No", "P", "Pf", "S", "Sk", "C", "x", "é", "😀", "\n", "\0", "/", "'", "&&", "$", "a-z", "a-", "[^a]", "[a-c]", "(a)", "{2}", "{1,}", "{0,3}", "{,2}", "[-]", "~", "\ud7ff", "\ue000", "\U0010ffff", " "]
ATOMS = ["a", "b", ".", "[ab]", "[^a]", "(a)", "(ab)", "(a|b)", "\\.", "\\\\", "[a-c]", "\\p{L}", "\\P{L}", "()", "\\n", "é"]
QUANTS = ["", "*", "+", "?", "{2}", "{1,}", "{0,2}", "{1,3}", "{0}", "{10}", "{2,10}", "{03}"]


def small_patterns():
    out = [""]
    pieces = [a + q for a in ATOMS for q in QUANTS]
    out += pieces
    small = [a + q for a in ["a", "b", ".", "[ab]", "(a|b)", "(ab)"] for q in ["", "*", "+", "?", "{2}"]]
    out += [x + y for x in small for y in small]
    out += [x + "|" + y for x in small[:12] for y in small[:12]]
    out += ["(" + x + ")" + q for x in ["a*", "a|b", "ab?", "a+b", "|a", "a|", "(a)b", "[ab]c?"] for q in QUANTS]
    out += ["|", "a|", "|a", "a||b", "(|)", "(a|)b", "((a))", "((a|b)(c|a))+", "a(b(c)?)?", "(a*)*" if False else "(a*)b*", "[-a]", "[a-]", "[-]", "[^-]", "[^-a]", "[a-c-]", "[.]", "[.*+]", "[$]", "[a^]", "[\\^]", "[\\-a]", "[\\]]", "[\\[]", "[&&]", "[a&&b]", "[~~]", "[a~~b]", "[a--]" if False else "[|]", "[{}]", "[()]", "[?]", "[\\n]", "[\\t\\r]", "[\\p{L}]", "[^\\p{L}]", "[\\P{L}0]", "[a\\p{Nd}]", "[\\p{Lu}\\p{Nd}]", "[é☺]", "[😀]", "[a-z]", "[\\*-\\-]", "[,-/]" if False else "[,]", "#", "a#b", "x y", " ", "-", "a-b", "/", ":", ",", "<a>", "~", "&", "&&", "%", "'", '"', "@", "!", "=", "_", "[{1-23-4]", "[{12}]a", "[{,10}]", "[a{10]{2}", "[\\]{12]", "[}]", "\\{10}", "\\[{2}", "a{10}b{2}", "a{2,10}", "(ab){10,12}", "a{10,}", "a{00}", "a{01}", "b{0010,0012}"]
    for c in "()*+-.?[\\]^nrt{|}":
        out += ["\\" + c, "a\\" + c, "[\\" + c + "]", "[^\\" + c + "]"]
    for c in CATS:
        out += ["\\p{%s}" % c, "\\P{%s}" % c, "[\\p{%s}]+" % c, "[^\\p{%s}]" % c, "[a\\P{%s}]" % c]
    return list(dict.fromkeys(out))


def bad_patterns():
    """not I-Regexps: match and search are false"""
    out = ["(", ")", "[", "]", "{", "}", "*", "+", "?", "a**", "a*?", "a+?", "a??", "a{", "a}", "a{}", "a{,1}", "a{x}", "a{1", "a{1,", "a{1,2", "a{1}{2}", "a{1}*", "(a", "a)", "[a", "a]", "[]", "[^]" if False else "[]a]x[", "[[a]]", "[a[b]]", "\\", "\\d", "\\w", "\\s", "\\D", "\\b", "\\B", "\\A", "\\z", "\\1", "\\a", "\\f", "\\v", "\\x41", "\\u0041", "\\e", "\\/", "\\-a" if False else "\\@", "\\_", "\\p", "\\pL", "\\p{", "\\p{}", "\\p{X}", "\\p{Lx}", "\\p{Letter}", "\\p{IsL}", "\\p{L", "\\P", "\\p{l}", "\\p{Cs}", "(?:a)", "(?i)a", "(?=a)", "(?!a)", "(?<n>a)", "(?P<n>a)", "[a-b-c]", "[a--b]", "[[:alpha:]]", "[\\d]", "[\\w]", "[\\b]", "a|*", "|*", "(*a)", "a{-1}", "a{1,-2}", "a{ 1}", "[a-\\p{L}]", "\\cA", "(a|b", "a||)", "[\\", "[a-", "\\Q", "a\\", "*a", "+a", "?a", "{1}", "(?", "()) (", "[^", "[\\x41]", "\\k<n>", "[&&[a]]"]
    return out


class RGen:
    """Random valid patterns, with strings sampled from their language."""

    def __init__(self, r):
        self.r = r

    # every phrase is (text, sampler)
    def char(self):
        r = self.r
        if r.random() < 0.9:
            c = r.choice("aaabbbcc0 é☺😀-,/&~")
            return c, lambda: c
        c = r.choice("()*+-.?[\\]^nrt{|}")
        m = {"n": "\n", "r": "\r", "t": "\t"}.get(c, c)
        return "\\" + c, lambda: m

    def cat(self):
        r = self.r
        c = r.choice(CATS)
        neg = r.random() < 0.4
        ok = [x for x in CHARS if unicodedata.category(x).startswith(c) != neg] or ["a"]
        return ("\\P{%s}" if neg else "\\p{%s}") % c, lambda: r.choice(ok)

    def cls(self):
        r = self.r
        neg = r.random() < 0.3
        o = "[" + ("^" if neg else "")
        items = []
        if r.random() < 0.15:
            o += "-"
            items.append(lambda: "-")
        for _ in range(r.randint(1, 4)):
            x = r.random()
            if x < 0.4:
                c = r.choice("abcé☺😀0 .*+?(){}|$&~,/")
                o += c
                items.append(lambda c=c: c)
            elif x < 0.65:
                a, b = sorted([r.choice("abcABC012"), r.choice("abcABC012")])
                o += a + "-" + b
                items.append(lambda a=a, b=b: chr(r.randint(ord(a), ord(b))))
            elif x < 0.8:
                c = r.choice("()*+-.?[\\]^nrt{|}")
                o += "\\" + c
                m = {"n": "\n", "r": "\r", "t": "\t"}.get(c, c)
                items.append(lambda m=m: m)
            else:
                t, f = self.cat()
                o += t
                items.append(f)
        if r.random() < 0.1:
            o += "-"
            items.append(lambda: "-")
        return o + "]", (lambda: r.choice(CHARS)) if neg else (lambda: r.choice(items)())

    def atom(self, depth):
        r = self.r
        x = r.random()
        if depth > 0 and x < 0.25:
            t, f = self.alt(depth - 1)
            return "(" + t + ")", f
        if x < 0.45:
            return self.cls()
        if x < 0.55:
            return ".", lambda: r.choice(CHARS)
        if x < 0.62:
            return self.cat()
        return self.char()

    QS = [("", 1, 1)] * 6 + [("*", 0, 4), ("+", 1, 4), ("?", 0, 1), ("{2}", 2, 2), ("{0,1}", 0, 1), ("{1,2}", 1, 2), ("{1,}", 1, 4), ("{3}", 3, 3), ("{0}", 0, 0), ("{10}", 10, 10), ("{2,12}", 2, 12), ("{11,}", 11, 13), ("{02}", 2, 2), ("{9,10}", 9, 10)]

    def alt(self, depth):
        r = self.r
        branches = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            ps = []
            for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
                t, f = self.atom(depth)
                q, lo, hi = r.choice(self.QS)
                if hi > 4 and depth < 2:
                    q, lo, hi = "", 1, 1
                ps.append((t + q, f, lo, hi))
            branches.append(ps)

        def sample():
            return "".join("".join(f() for _ in range(r.randint(lo, hi))) for _, f, lo, hi in r.choice(branches))

        return "|".join("".join(x[0] for x in ps) for ps in branches), sample

    def pattern(self):
        while True:
            p, f = self.alt(2)
            if len(p) > 60:
                continue
            # '^' and '$' only inside classes
            ok = True
            cl = esc = False
            for c in p:
                if esc:
                    esc = False
                elif c == "\\":
                    esc = True
                elif c == "[":
                    cl = True
                elif c == "]":
                    cl = False
                elif c in "$^" and not cl:
                    ok = False
            if ok:
                self.sample = f
                return p

    def subjects(self, p):
        """for the last pattern: strings of its language, slightly changed ones, and others"""
        r = self.r
        out = [""]
        for _ in range(8):
            x = self.sample()[:40]
            out.append(x)
            k = r.randint(0, len(x))
            out.append(r.choice([x[:k] + r.choice(CHARS) + x[k:], x[:k] + x[k + 1 :], x + x[:1], x[:k] + r.choice("abc\n") + x[k + 1 :]]))
        base = [c for c in p if c not in "{}[]()|*+?\\^$"] or ["a"]
        for _ in range(4):
            out.append("".join(r.choice(base) if r.random() < 0.6 else r.choice("abc") for _ in range(r.randint(1, 6))))
        return list(dict.fromkeys(out)) + ["a", "\n", "\r"]

    def corrupt(self, p):
        r = self.r
        for _ in range(20):
            i = r.randint(0, len(p))
            q = r.choice([p[:i] + r.choice(["(", ")", "[", "]", "{", "}", "*", "?", "+", "\\", "|", "\\d", "{1", "\\p{Q}", "(?i)"]) + p[i:], p[:i] + p[i + 1 :]])
            if q != p and "^" not in q and "$" not in q:
                import re

                # ranges that would be reversed, long or reversed quantifiers are not judged
                if re.search(r"\{[0-9]{3,}|\{[0-9]+,[0-9]+\}", q):
                    continue
                if re.search(r"[^\\]-[^\]]|\\.-", q):
                    continue
                return q
        return None
