"""Families of growing queries and documents, see spec/Scale.tla.

name: (parts, document kind, count c0 c1 c2, options); sizes by growth:
  flat: only longer, nest: constructs or documents nested, chain: operands of
  one operator, quad: quadratic answers."""
import json, os

import lib
from lib import N, run_jobs, tlc, validate

FLAT, NEST, CHAIN, QUAD, LITTLE = "flat", "nest", "chain", "quad", "little"


def F(parts, doc, count=(0, 0, 0), grow=FLAT, ok=1, gok=None, sing=False, frm=1, known=()):
    parts = list(parts) + [""] * (5 - len(parts))
    return dict(parts=parts, doc=doc, c=count, grow=grow, ok=ok, gok=ok if gok is None else gok, sing=sing, frm=frm, known=list(known))


FAMILIES = {
    # segments
    "member chain": F(["$", ".a"], "deep-o", (1, 0, 0), NEST, sing=True, known=[("C", 100000)]),
    "quoted member chain": F(["$", "['a']"], "deep-o", (1, 0, 0), NEST, sing=True),
    "index chain": F(["$", "[0]"], "deep-a", (1, 0, 0), NEST, sing=True),
    "wildcard chain": F(["$", ".*"], "deep-a", (1, 0, 0), NEST),
    "chain into a scalar": F(["$", ".a"], "one", (0, 0, 0), FLAT, sing=True),
    "descendants of a scalar": F(["$", "..*"], "one", (0, 0, 0), FLAT),
    "descendant names": F(["$..a"], "deep-o", (0, 1, 0), NEST),
    "descendant wildcard": F(["$..*"], "deep-a", (0, 1, 0), NEST),
    "mixed descendants": F(["$..*"], "deep-m", (0, 2, 0), NEST),
    "descendant pairs": F(["$..['a','a']"], "deep-o", (0, 2, 0), NEST),
    "descendants of descendants": F(["$..[*,*]..*"], "deep-a", (0, -1, 1), LITTLE),
    "filters below": F(["$..[?@.a]"], "deep-o", (-1, 1, 0), NEST),
    "whole comparison": F(["$[?@==$.a]"], "deep-o", (1, 0, 0), NEST),
    "comparison of every level": F(["$..[?@.a==@.a]"], "deep-o", (0, 1, 0), NEST),
    # selectors
    "wide array": F(["$.*"], "wide-a", (0, 1, 0)),
    "wide object": F(["$..*"], "wide-o", (0, 1, 0)),
    "backwards": F(["$[::-1]"], "wide-a", (0, 1, 0)),
    "slice": F(["$[1:]"], "wide-a", (-1, 1, 0)),
    "last": F(["$[-1]"], "wide-a", (1, 0, 0), sing=True),
    "all below an array": F(["$..*"], "wide-a", (0, 1, 0)),
    "slice below": F(["$..[1:]"], "wide-a", (-1, 1, 0)),
    "backwards below": F(["$..[::-1]"], "wide-a", (0, 1, 0)),
    "last below": F(["$..[-1]"], "wide-a", (1, 0, 0)),
    "filter below an array": F(["$..[?@==1]"], "wide-a", (0, 1, 0)),
    "rows by slice and wildcard": F(["$[:][*]"], "rows", (0, 1, 0)),
    "rows by name below": F(["$[*]..a"], "rows", (0, 1, 0)),
    "first row below": F(["$..[0]..*"], "rows", (1, 0, 0)),
    "rows by name": F(["$..a"], "rows", (0, 1, 0)),
    "rows by wildcard and name": F(["$[*]['a']"], "rows", (0, 1, 0)),
    "rows from the back": F(["$[::-1].a"], "rows", (0, 1, 0)),
    "all below rows": F(["$..*"], "rows", (0, 2, 0)),
    "filter below rows": F(["$..[?@.a]"], "rows", (0, 1, 0)),
    "no object": F(["$[?!@.a]"], "rows", (0, 0, 0)),
    "first of a slice": F(["$[?@==$[-1]]"], "wide-a", (0, 1, 0)),
    # many nodes in a row without a match
    "sparse names": F(["$[*].a"], "sparse", (1, 0, 0)),
    "sparse alternatives": F(["$[*]['b','a','c']"], "sparse", (1, 0, 0)),
    "sparse names below": F(["$..a"], "sparse", (1, 0, 0)),
    "sparse wildcards": F(["$.*.*"], "sparse", (1, 0, 0)),
    "sparse filter": F(["$[?@.a]"], "sparse", (1, 0, 0)),
    "sparse filters": F(["$[*][?@==1]"], "sparse", (1, 0, 0)),
    "sparse filters below": F(["$..[?@.a==1]"], "sparse", (1, 0, 0)),
    "sparse conjunction": F(["$[?@.a&&@.a<2]"], "sparse", (1, 0, 0)),
    "sparse slices": F(["$[:].a"], "sparse", (1, 0, 0)),
    "sparse from the back": F(["$[::-1]['a']"], "sparse", (1, 0, 0)),
    "sparse and absent": F(["$[*][0,1]"], "sparse", (0, 0, 0)),
    "sparse and twice": F(["$[*]['a']", "", "[?@]"], "sparse", (0, 0, 0)),
    "all but sparse": F(["$[?!@.a]"], "sparse", (0, 1, 0)),
    # sizes and large values
    "length of an array": F(["$[?length(@.l)==@.k]"], "sized", (1, 0, 0)),
    "length of an object": F(["$[?length(@.o)==@.k]"], "sized", (1, 0, 0)),
    "length of a string": F(["$[?length(@.s)==@.k]"], "sized", (1, 0, 0)),
    "lengths alike": F(["$[?length(@.s)<=length(@.l)&&length(@.o)>=length(@.s)]"], "sized", (1, 0, 0)),
    "length in a filter below": F(["$..[?length(@.l)!=@.k]"], "sized", (0, 0, 0)),
    "count of elements": F(["$[?count(@.l[*])==@.k]"], "sized", (1, 0, 0)),
    "count of members": F(["$[?count(@.o.*)==@.k]"], "sized", (1, 0, 0)),
    "count below elements": F(["$[?count(@.l..*)==@.k]"], "sized", (1, 0, 0)),
    "count of a slice": F(["$[?count(@.l[1:])<@.k]"], "sized", (1, 0, 0)),
    "count of a filter": F(["$[?count(@.l[?@==1])==@.k]"], "sized", (1, 0, 0)),
    "no count": F(["$[?count(@.o[?@!=1])==0]"], "sized", (1, 0, 0)),
    "value of the last": F(["$[?value(@.l[-1:])==1]"], "sized", (1, 0, 0)),
    "value of many": F(["$[?value(@.l[*])==1]"], "sized", (0, 0, 0), frm=2),
    "equal arrays": F(["$[?@.l==$[0]['l']]"], "sized", (1, 0, 0)),
    "equal objects": F(["$[?@.o==$[0].o]"], "sized", (1, 0, 0)),
    "equal strings": F(["$[?@.s==$[0].s]"], "sized", (1, 0, 0)),
    "different arrays": F(["$[?@.l==@.m]"], "sized", (0, 0, 0)),
    "different strings": F(["$[?@.s!=@.t]"], "sized", (1, 0, 0)),
    "longer string": F(["$[?@.s<@.t]"], "sized", (1, 0, 0)),
    "string not above": F(["$[?@.s>=@.t]"], "sized", (0, 0, 0)),
    "longer object": F(["$[?@.o!=$[0].l&&@.l!=@.m]"], "sized", (1, 0, 0)),
    # long subjects
    "match of a long string": F(["$[?match(@,'a*')]"], "str", (1, 0, 0)),
    "match at the end": F(["$[?match(@,'a*b')]"], "str", (0, 0, 0)),
    "match of one": F(["$[?match(@,'a')]"], "str", (0, 0, 0), frm=2),
    "class of a long string": F(["$[?match(@,'[^b]+')]"], "str", (1, 0, 0), frm=1),
    "search in a long string": F(["$[?search(@,'b')]"], "str", (0, 0, 0)),
    "search at the start": F(["$[?search(@,'a')]"], "str", (1, 0, 0)),
    "search for two": F(["$[?search(@,'😀😀')]"], "emoji", (1, 0, 0), frm=2),
    "dots for a long string": F(["$[?match(@,'.*')]"], "emoji", (1, 0, 0)),
    "symbols": F(["$[?match(@,'(\\\\p{So})+')]"], "emoji", (1, 0, 0)),
    "no letters": F(["$[?search(@,'\\\\p{L}')]"], "emoji", (0, 0, 0)),
    "existence of many": F(["$[?@.l[*]]"], "sized", (1, 0, 0)),
    "existence of many below": F(["$[?@.o..*&&!@.m.x]"], "sized", (1, 0, 0)),
    "no absence of many": F(["$[?!@.l..*]"], "sized", (0, 0, 0)),
    "all of an object": F(["$.*"], "wide-o", (0, 1, 0)),
    "filtered object": F(["$[?@==1]"], "wide-o", (0, 1, 0)),
    "length of all": F(["$..[?length($)>0]"], "wide-o", (0, 1, 0)),
    "every row": F(["$[?@.a==1]"], "rows", (0, 1, 0)),
    "every row by nodes": F(["$[?count(@.*)==1]"], "rows", (0, 1, 0)),
    "every row against the root": F(["$[?@.a==$[0].a]"], "rows", (0, 1, 0)),
    "every number": F(["$[?@>0.5]"], "wide-a", (0, 1, 0)),
    "many indexes": F(["$[0", ",0", "", "", "]"], "wide-a", (1, 1, 0)),
    "many names": F(["$['a'", ",'a'", "", "", "]"], "keys", (0, 0, 0), frm=2),
    "many slices": F(["$[:1", ",:1", "", "", "]"], "wide-a", (1, 1, 0)),
    "many filters": F(["$[?@.a", ",?@.a", "", "", "]"], "rows", (0, 1, 1), QUAD),
    "all pairs": F(["$[?count($.*)>0]"], "wide-a", (0, 1, 0), QUAD),
    # expressions
    "and": F(["$[?@", "&&@", "", "", "]"], "wide-a", (0, 1, 0), CHAIN),
    "or": F(["$[?@.b", "||@.b", "", "", "]"], "rows", (0, 0, 0), CHAIN),
    "long and": F(["$[?@", "&&@", "", "", "]"], "one", (0, 0, 0), CHAIN, known=[(c, 20000) for c in "ABCDLEFG"]),
    "long or": F(["$[?@", "||@", "", "", "]"], "one", (0, 0, 0), CHAIN, known=[(c, 20000) for c in "ABCDLEFG"]),
    "and or": F(["$[?@.b", "&&@.a||@.a", "", "", "]"], "rows", (0, 1, 0), CHAIN),
    "comparisons": F(["$[?@==1", "&&1==@", "", "", "]"], "wide-a", (0, 1, 0), CHAIN),
    "parentheses": F(["$[?", "(", "@", ")", "]"], "wide-a", (0, 1, 0), NEST),
    "parentheses of alternatives": F(["$[?", "(@.b||", "@", ")", "]"], "wide-a", (0, 1, 0), NEST),
    "double negation": F(["$[?", "!(!(", "@", "))", "]"], "wide-a", (0, 1, 0), NEST),
    "nested filters": F(["$", "[?@", "", "]"], "deep-a", (1, 0, 0), NEST),
    "nested filter tests": F(["$[?", "@[?", "@==1", "]", "]"], "deep-a", (0, 0, 0), NEST),
    "nested filters and parentheses": F(["$[?", "(@[?", "@", "])", "]"], "one", (0, 0, 0), NEST),
    "nested absolute filters": F(["$[?", "$[?", "@", "]", "]"], "one", (0, 0, 0), NEST),
    "nested calls": F(["$[?", "length(value(@[?", "@", "]))>0", "]"], "one", (0, 0, 0), NEST),
    "nested counts": F(["$[?", "count(@[?", "@", "])>=0", "]"], "wide-a", (0, 1, 0), NEST),
    "ill-typed calls": F(["$[?", "length(value(", "@", "))", "==1]"], "one", (0, 0, 0), NEST, ok=0, frm=2),
    "many arguments": F(["$[?count(@", ",@", "", "", ")==1]"], "one", ok=0),
    # long tokens
    "long string": F(["$[?length(@)>1]"], "str", (1, 0, 0), frm=2),
    "long astral string": F(["$[?length(@)>1]"], "emoji", (1, 0, 0), frm=2),
    "long literal": F(["$[?@=='", "a", "", "", "']"], "str", (1, 0, 0)),
    "long double quoted literal": F(['$[?@=="', "a", "", "", '"]'], "str", (1, 0, 0)),
    "long escaped literal": F(['$[?@=="', "\\u0061", "", "", '"]'], "str", (1, 0, 0)),
    "long astral literal": F(["$[?@=='", "😀", "", "", "']"], "emoji", (1, 0, 0)),
    "long surrogate literal": F(["$[?@=='", "\\uD83D\\uDE00", "", "", "']"], "emoji", (1, 0, 0)),
    "long name": F(["$['", "a", "", "", "']"], "keys", (1, 0, 0), sing=True),
    "long shorthand": F(["$.", "a"], "keys", (1, 0, 0), sing=True),
    "long quotes": F(["$[\"", "\\\"", "", "", "\"]"], "keys", (0, 0, 0), sing=True),
    "blank space": F(["$", " ", ".*"], "wide-a", (0, 1, 0)),
    "blank space in brackets": F(["$[", " \n", "*", "\t ", "]"], "wide-a", (0, 1, 0)),
    "blank space in a filter": F(["$[?@", " ", "==", "\r", "1]"], "wide-a", (0, 1, 0)),
    "long function name": F(["$[?f", "o", "(@)]"], "one", ok=0),
    # numbers
    "index digits": F(["$[1", "0", "]"], "wide-a", ok=0, frm=16),
    "slice digits": F(["$[-9", "9", ":", "9", "]"], "wide-a", ok=0, frm=16),
    "zero fraction": F(["$[?@==1.", "0", "]"], "wide-a", (0, 1, 0)),
    "tiny fraction": F(["$[?@==0.", "0", "1]"], "wide-a", (0, 0, 0), LITTLE),
    "zero exponent": F(["$[?@==1e", "0", "]"], "wide-a", (0, 1, 0)),
    "big literal": F(["$[?@<1", "0", "]"], "wide-a", (0, 1, 0), LITTLE),
    # errors
    "only dots": F(["$", "."], "one", ok=0),
    "open brackets": F(["$", "["], "one", ok=0, grow=NEST),
    "open filters": F(["$", "[?@"], "one", ok=0, grow=NEST),
    "open parentheses": F(["$[?", "("], "one", ok=0, grow=NEST),
    "closing parentheses": F(["$[?@", ")"], "one", ok=0),
    "closing brackets": F(["$", "]"], "one", ok=0),
    "negations": F(["$[?", "!", "@]"], "one", ok=0, frm=2, grow=NEST),
    "comparison chain": F(["$[?1", "==1", "]"], "one", ok=0, frm=2, grow=CHAIN, known=[("A", 20000)]),
    "colons": F(["$[", ":", "]"], "one", ok=0, frm=3),
    "commas": F(["$[0", ",", "]"], "one", ok=0),
    "unterminated string": F(["$['", "a"], "one", ok=0),
    "unterminated escapes": F(["$['", "\\\\"], "one", ok=0),
    "trailing blanks": F(["$", " "], "one", ok=0),
    "late error": F(["$", ".a", "."], "one", ok=0),
    "late error in a list": F(["$[0", ",0", ",]"], "one", ok=0),
    "late error after nesting": F(["$[?", "(", "@", ")", ")]"], "one", ok=0, grow=NEST),
    "missing closing": F(["$[?((", "(", "@", ")", "]"], "one", ok=0, grow=NEST),
    "deep late error": F(["$[?", "@[?", "@=1", "]", "]"], "one", ok=0, grow=NEST),
    "calls without end": F(["$[?", "count("], "one", ok=0, grow=NEST),
    "minus signs": F(["$[", "-", "1]"], "one", ok=0, frm=2),
    "not ascii": F(["", "é"], "one", ok=0, gok=1, sing=True),
    "astral error": F(["$", "😀"], "one", ok=0),
    # patterns
    "nested pattern": F(["$[?match(@.s,@.p)]"], "pat-paren", (1, 0, 0), LITTLE),
    "long pattern": F(["$[?match(@.s,@.p)]"], "pat-long", (1, 0, 0), LITTLE),
    "many alternatives": F(["$[?match(@.s,@.p)]"], "pat-alt", (1, 0, 0), LITTLE),
    "long class": F(["$[?match(@.s,@.p)]"], "pat-class", (1, 0, 0)),
    "open pattern": F(["$[?match(@.s,@.p)]"], "pat-open", (0, 0, 0), NEST),
    "ambiguous pattern": F(["$[?search(@.s,@.p)]"], "pat-star", (0, 0, 0)),
    "optional parts": F(["$[?search(@.s,@.p)]"], "pat-opt", (0, 0, 0), LITTLE),
    "long literal pattern": F(["$[?match(@,'", "a", "", "", "')]"], "str", (1, 0, 0), LITTLE),
    "nested literal pattern": F(["$[?search(@,'", "(", "a", ")", "')]"], "str", (1, 0, 0), LITTLE),
    "searched pattern": F(["$[?search(@.s,@.p)]"], "pat-long", (1, 0, 0), LITTLE),
    "searched alternatives": F(["$[?search(@.s,@.p)]"], "pat-alt", (1, 0, 0), LITTLE),
    "searched literal pattern": F(["$[?search(@,'", "a", "", "", "')]"], "str", (1, 0, 0), LITTLE),
    "unmatched literal pattern": F(["$[?match(@,'", "a", "b')||search(@,'", "a", "b')]"], "str", (0, 0, 0), LITTLE),
    # something else at the end of a long query
    "late wildcard": F(["$", ".a", "[*]"], "deep-o", (0, 0, 0), NEST),
    "late names": F(["$", "[0]", "['a',0]"], "deep-a", (0, 0, 0), NEST),
    "late slice": F(["$", "[0]", "[:]"], "deep-a", (0, 0, 0), NEST),
    "late descendants": F(["$", "['a']", "..a"], "deep-o", (0, 0, 0), NEST),
    "late filter": F(["$", "[0]", "[?@]"], "deep-a", (0, 0, 0), NEST),
    "late index": F(["$", ".a", "[0]"], "deep-o", (0, 0, 0), NEST, sing=True),
    "early wildcard": F(["$[*]", ".a"], "deep-o", (0, 0, 0), NEST),
    "early descendants": F(["$..a", ".a"], "deep-o", (0, 0, 0), NEST, frm=1),
    "late operand": F(["$[?@.b", "&&@.b", "||@==1", "", "]"], "wide-a", (0, 1, 0), CHAIN),
    "late negation": F(["$[?@", "&&@", "&&!@.b", "", "]"], "wide-a", (0, 1, 0), CHAIN),
    "late false operand": F(["$[?@", "&&@", "&&@!=1", "", "]"], "wide-a", (0, 0, 0), CHAIN),
    "late selector": F(["$['a'", ",'a'", ",0", "", "]"], "wide-a", (1, 0, 0)),
    "late result of calls compared": F(["$[?@", "&&@", "&&length(@)==count(@)", "", "]"], "one", (0, 0, 0), CHAIN),
    "late calls as tests": F(["$[?@", "&&@", "&&count(@)", "", "]"], "one", ok=0, grow=CHAIN),
    "late literal tests": F(["$[?@", "||@", "||1", "", "]"], "one", ok=0, grow=CHAIN),
    "late literal tests in parentheses": F(["$[?", "(", "1", ")", "]"], "one", ok=0, grow=NEST),
    "late nodes compared": F(["$[?@", "&&@", "&&@.*==1", "", "]"], "one", ok=0, grow=CHAIN),
    "late nodes in long queries compared": F(["$[?@", ".a", "[0,1]==1]"], "one", ok=0, grow=NEST),
    "late absolute nodes compared": F(["$[?1!=$", "['a']", "..b]"], "one", ok=0, grow=NEST),
    "late results of calls of the wrong type": F(["$[?@", "&&@", "&&length(@.*)==1", "", "]"], "one", ok=0, grow=CHAIN),
    "late number of arguments": F(["$[?@", "&&@", "&&count(@,@)==1", "", "]"], "one", ok=0, grow=CHAIN),
    "late calls unknown": F(["$[?@", "&&@", "&&size(@)==1", "", "]"], "one", ok=0, grow=CHAIN),
    "late calls compared": F(["$[?@", "&&@", "&&match(@,'a')==true", "", "]"], "one", ok=0, grow=CHAIN),
    "late calls below filters": F(["$[?", "@[?", "count(@)", "]", "]"], "one", ok=0, grow=NEST),
    "late index digits": F(["$[0", ",0", ",01]"], "one", ok=0),
    "late big index digits": F(["$[0", ",0", ",9007199254740992]"], "one", ok=0),
    "late negative digits": F(["$[0", ",0", ",:-9007199254740992]"], "one", ok=0),
    "late minus signs": F(["$", "[0]", "[-0]"], "one", ok=0, grow=NEST),
    "late fraction": F(["$[?@==1", "&&1==@", "&&@<1.", "", "]"], "one", ok=0, grow=CHAIN),
    "late exponent": F(["$[?@==1", "&&1==@", "&&@<1e+", "", "]"], "one", ok=0, grow=CHAIN),
    "bad escape after a long literal": F(["$['", "a", "\\x", "", "']"], "one", ok=0),
    "control character after a long literal": F(["$[\"", "a", "\x01", "", "\"]"], "one", ok=0),
    "lone surrogate after a long literal": F(["$['", "\\u0061", "\\ud800", "", "']"], "one", ok=0),
    "low surrogate after a long literal": F(["$[?@=='", "a", "\\udc00", "", "']"], "one", ok=0),
    "wrong quote escaped after a long literal": F(["$['", "a", "\\\"", "", "']"], "one", ok=0),
    "escape after a long literal": F(["$[?@!='", "a", "\\n", "", "']"], "str", (1, 0, 0)),
    "surrogate pair after a long literal": F(["$[?@!='", "a", "\\ud83d\\ude00", "", "']"], "str", (1, 0, 0)),
    "escape before a long literal": F(["$[?@!='\\t", "a", "", "", "']"], "str", (1, 0, 0)),
    "digit after a long shorthand": F(["$.", "a", "1"], "keys", (0, 0, 0), sing=True),
    "minus after a long shorthand": F(["$.", "a", "-"], "keys", ok=0),
    # extended syntax
    "query selectors": F(["$[$[0]", ",$[0]", "", "", "]"], "zero", (1, 1, 0), FLAT, ok=0, gok=1),
    "nested query selectors": F(["$", "[$", "[0]", "]"], "zero", grow=NEST, ok=0, frm=2),
    "implicit root": F(["a", ".a"], "deep-o", (0, 0, 0), NEST, ok=0, gok=1, sing=True),
}
# families whose answer is an arithmetic progression of preorder ids: first id
# a0 + a1*n, and the step
PROG = {
    "member chain": (1, 1, 0),
    "quoted member chain": (1, 1, 0),
    "index chain": (1, 1, 0),
    "wildcard chain": (1, 1, 0),
    "descendant names": (2, 0, 1),
    "descendant wildcard": (2, 0, 1),
    "mixed descendants": (2, 0, 1),
    "filters below": (2, 0, 1),
    "whole comparison": (2, 0, 0),
    "comparison of every level": (2, 0, 1),
    "wide array": (2, 0, 1),
    "wide object": (2, 0, 1),
    "all of an object": (2, 0, 1),
    "filtered object": (2, 0, 1),
    "length of all": (2, 0, 1),
    "backwards": (1, 1, -1),
    "slice": (3, 0, 1),
    "last": (1, 1, 0),
    "all below an array": (2, 0, 1),
    "slice below": (3, 0, 1),
    "backwards below": (1, 1, -1),
    "last below": (1, 1, 0),
    "filter below an array": (2, 0, 1),
    "rows by slice and wildcard": (3, 0, 2),
    "rows by name below": (3, 0, 2),
    "first row below": (3, 0, 0),
    "rows by name": (3, 0, 2),
    "rows by wildcard and name": (3, 0, 2),
    "rows from the back": (1, 2, -2),
    "filter below rows": (2, 0, 2),
    "every row": (2, 0, 2),
    "every row by nodes": (2, 0, 2),
    "every row against the root": (2, 0, 2),
    "every number": (2, 0, 1),
    "first of a slice": (2, 0, 1),
    "sparse names": (3, 1, 0),
    "sparse alternatives": (3, 1, 0),
    "sparse names below": (3, 1, 0),
    "sparse wildcards": (3, 1, 0),
    "sparse filter": (2, 1, 0),
    "sparse filters": (3, 1, 0),
    "sparse filters below": (2, 1, 0),
    "sparse conjunction": (2, 1, 0),
    "sparse slices": (3, 1, 0),
    "sparse from the back": (3, 1, 0),
    "all but sparse": (2, 0, 1),
    "many indexes": (2, 0, 0),
    "many slices": (2, 0, 0),
    "all pairs": (2, 0, 1),
    "and": (2, 0, 1),
    "and or": (2, 0, 2),
    "comparisons": (2, 0, 1),
    "parentheses": (2, 0, 1),
    "parentheses of alternatives": (2, 0, 1),
    "double negation": (2, 0, 1),
    "nested filters": (2, 0, 0),
    "long string": (2, 0, 0),
    "long astral string": (2, 0, 0),
    "long literal": (2, 0, 0),
    "long double quoted literal": (2, 0, 0),
    "long escaped literal": (2, 0, 0),
    "long astral literal": (2, 0, 0),
    "long surrogate literal": (2, 0, 0),
    "long name": (2, 0, 0),
    "long shorthand": (2, 0, 0),
    "blank space": (2, 0, 1),
    "zero fraction": (2, 0, 1),
    "zero exponent": (2, 0, 1),
    "big literal": (2, 0, 1),
}
SIZES = {FLAT: [60, 256, 1000, 20000], NEST: [30, 120, 300], CHAIN: [40, 250, 1000], QUAD: [20, 150, 300], LITTLE: [10, 60, 200]}
DEEP = {FLAT: [60, 1000, 5000, 20000, 100000], NEST: [20, 40, 80, 120, 127, 128, 129, 200, 300, 500], CHAIN: [40, 250, 500, 1000, 2000], QUAD: [20, 60, 150, 300, 600], LITTLE: [10, 20, 60, 100, 200, 230]}


def families_json():
    return [dict(name=k, parts=[[ord(c) for c in p] for p in f["parts"]], doc=f["doc"], ok=f["ok"], gok=f["gok"], sing=f["sing"], c0=f["c"][0], c1=f["c"][1], c2=f["c"][2], prog=list(PROG.get(k, ())), **{"from": f["frm"]}) for k, f in FAMILIES.items()]


NOIDS = dict(seen=False, same=False, first=0, step=0)


def spec_files(chk=None, small=False):
    fp = os.path.join(lib._scratch(), "families.json")
    if not os.path.exists(fp):
        with open(fp, "w") as f:
            json.dump(families_json(), f)
    if chk:
        chk.model(tlc("Scale", env=dict(FAMILIES=fp, MAXN=4 if small else N(6, 9))))
    return fp


def grown(chk, plan, small=False, only=None):
    """plan: (family, size, parser or evaluator); only: the mismatches that are this property's"""
    fp = spec_files(chk, small)
    names = list(FAMILIES)
    plan.sort(key=lambda x: -x[1])
    jobs = [dict(op="scale", parts=FAMILIES[f]["parts"], doc=FAMILIES[f]["doc"], n=n, cr=c, fam=f, ids=f in PROG) for f, n, c in plan]
    res = run_jobs(jobs, timeout=100)
    recs, slow = [], 0
    for (f, n, c), x in zip(plan, res):
        r = dict(k="scale", fam=names.index(f) + 1, n=n, w=c, died="", ok=-1, count=0, stable=False, sing=False, out="", ids=NOIDS, locs=[])
        slow = max(slow, outcome(r, x, c))
        recs.append(r)
    bad, rt = validate("TraceScale", recs, extra=dict(FAMILIES=fp))
    chk.validated(len(recs), rt)
    chk.cov["grown_inputs"] = len(recs)
    chk.cov["families"] = len({f for f, n, c in plan})
    chk.cov["largest"] = max(n for f, n, c in plan)
    chk.cov["slowest_call_ms"] = slow
    for i, b in bad:
        f, n, c = plan[i]
        for y in b:
            if only and y["what"] not in only and not recs[i]["died"]:
                continue
            chk.violation("%s %s" % (c, y["what"]), "%s: %s: family %r at size %d: %s" % (c, y["what"], f, n, json.dumps(res[i])[:200]), dict(jobs[i], outcome=res[i], what=y["what"]), key="%s %s %s %d" % (y["what"], c, f, n))


def outcome(r, x, c):
    if "crash" in x:
        r["died"] = x["crash"].split()[0]
    elif "panic" in x["r"][c]:
        r["died"] = "panic"
    else:
        y = x["r"][c]
        r.update(y)
        for p in r["locs"]:
            p["path"] = [ord(c) for c in p["path"]]
        return r.pop("ms")
    return 0


def slices(chk, plan):
    """plan: (array size, start, end, step or None each, evaluator)"""
    fp = spec_files()
    jobs, recs = [], []
    for n, a, b, s, c in plan:
        o = lambda v: "" if v is None else str(v)
        text = "$[%s:%s%s]" % (o(a), o(b), "" if s is None else ":%d" % s)
        jobs.append(dict(op="scale", parts=[text, "", "", "", ""], doc="wide-a", n=n, cr=c, ids=True))
    res = run_jobs(jobs, timeout=100)
    for (n, a, b, s, c), x in zip(plan, res):
        z = lambda v: [] if v is None else [v]
        r = dict(k="slice", n=n, w=c, a=z(a), b=z(b), c=z(s), died="", ok=-1, count=0, stable=False, sing=False, out="", ids=NOIDS, locs=[])
        outcome(r, x, c)
        recs.append(r)
    bad, rt = validate("TraceScale", recs, extra=dict(FAMILIES=fp))
    chk.validated(len(recs), rt)
    chk.cov["slices_of_long_arrays"] = len(recs)
    for i, b in bad:
        for y in b:
            n, c, t = plan[i][0], plan[i][4], jobs[i]["parts"][0]
            chk.violation("%s %s" % (c, y["what"]), "%s: %s: %s on an array of %d elements: %s" % (c, y["what"], t, n, json.dumps(res[i])[:200]), dict(jobs[i], outcome=res[i], what=y["what"]), key="%s %s %s %d" % (y["what"], c, t, n))


# one document, any size
WIDE = [f for f, x in FAMILIES.items() if x["ok"] and x["parts"][1] == "" and x["doc"] in ("wide-a", "wide-o", "rows", "sparse") and x["grow"] == FLAT]
SIZED = [f for f, x in FAMILIES.items() if x["doc"] == "sized"]
SUBJECTS = [f for f, x in FAMILIES.items() if x["doc"] in ("str", "emoji") and ("match" in x["parts"][0] or "search" in x["parts"][0]) and x["grow"] == FLAT]
def some(words, ok=True):
    """families by the words of their names"""
    return [f for f, x in FAMILIES.items() if any(w in f for w in words.split("|")) and (not ok or x["gok"])]


def sized(fams, cr, sizes=None):
    """a plan with sizes by growth"""
    sizes = sizes or {FLAT: N([255, 256, 257, 300, 5000], [60, 127, 128, 255, 256, 257, 300, 512, 1000, 1024, 4096, 5000, 20000]), NEST: N([60, 128, 200], [20, 60, 64, 65, 127, 128, 129, 130, 200, 255, 256, 257, 260]), CHAIN: N([250], [40, 250, 500]), QUAD: N([80], [20, 80, 300]), LITTLE: N([60], [10, 60, 200])}
    return [(f, max(n, FAMILIES[f]["frm"]), c) for f in fams for n in sizes[FAMILIES[f]["grow"]] for c in cr]


# sizes around the capacity of sixteen bits
EDGE = [65534, 65535, 65536, 65537]


# what may differ: of the answer, of the text
NODES = {"number of nodes", "which nodes"}
ACCEPT = {"refused", "accepted"}
PRINT = {"printed form does not parse back"}
CLASS = {"classification"}
