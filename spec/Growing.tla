------------------------------ MODULE Growing ------------------------------
(***************************************************************************)
(* Families of growing queries and documents, read from FAMILIES: the text *)
(* and the document of size n, and the predicted number of nodes, which    *)
(* nodes, and where a node of a regular document is.                       *)
(***************************************************************************)
EXTENDS Eval, TLC, Json, IOUtils

Families == JsonDeserialize(IOEnv.FAMILIES)

RECURSIVE Rep(_, _)
Rep(w, n) == IF n = 0 THEN <<>> ELSE w \o Rep(w, n - 1)
Text(f, n) == f.parts[1] \o Rep(f.parts[2], n) \o f.parts[3] \o Rep(f.parts[4], n) \o f.parts[5]

DNum == [t |-> "n", m |-> FromInt(1)]
DZero == [t |-> "n", m |-> Zero]
DStr(x) == [t |-> "s", s |-> x]
DArr(c) == [t |-> "a", c |-> c]
DObj(k, c) == [t |-> "o", k |-> k, c |-> c]
la == <<97>>
Sub(p) == << DArr(<<2>>), DObj(<< <<112>>, <<115>> >>, <<3, 4>>), DStr(p[2]), DStr(p[1]) >>
\* "k" and the decimal digits of j
KeyNo(j) == <<107>> \o DecCps(j)

Doc(f, n) ==
  CASE f.doc = "one" -> <<DNum>>
    [] f.doc = "zero" -> <<DArr(<<2>>), DZero>>
    [] f.doc = "deep-a" -> [j \in 1..(n + 1) |-> IF j <= n THEN DArr(<<j + 1>>) ELSE DNum]
    [] f.doc = "deep-o" -> [j \in 1..(n + 1) |-> IF j <= n THEN DObj(<<la>>, <<j + 1>>) ELSE DNum]
    [] f.doc = "deep-m" -> [j \in 1..(2 * n + 1) |-> IF j > 2 * n THEN DNum ELSE IF j % 2 = 1 THEN DObj(<<la>>, <<j + 1>>) ELSE DArr(<<j + 1>>)]
    [] f.doc = "wide-a" -> [j \in 1..(n + 1) |-> IF j = 1 THEN DArr([h \in 1..n |-> h + 1]) ELSE DNum]
    [] f.doc = "wide-o" -> [j \in 1..(n + 1) |-> IF j = 1 THEN DObj([h \in 1..n |-> KeyNo(h - 1)], [h \in 1..n |-> h + 1]) ELSE DNum]
    [] f.doc = "rows" -> [j \in 1..(2 * n + 1) |-> IF j = 1 THEN DArr([h \in 1..n |-> 2 * h]) ELSE IF j % 2 = 0 THEN DObj(<<la>>, <<j + 1>>) ELSE DNum]
    [] f.doc = "sparse" -> [j \in 1..(n + 3) |-> IF j = 1 THEN DArr([h \in 1..(n + 1) |-> h + 1]) ELSE IF j <= n + 1 THEN DObj(<<>>, <<>>) ELSE IF j = n + 2 THEN DObj(<<la>>, <<n + 3>>) ELSE DNum]
    \* [{k: n, l: n elements, m: n + 1 elements, o: n members, s: n characters, t: n + 1 characters}]
    [] f.doc = "sized" ->
         << DArr(<<2>>), DObj(<< <<107>>, <<108>>, <<109>>, <<111>>, <<115>>, <<116>> >>, <<3, 4, n + 5, 2 * n + 7, 3 * n + 8, 3 * n + 9>>),
            [t |-> "n", m |-> FromInt(n)] >>
         \o <<DArr([h \in 1..n |-> h + 4])>> \o [h \in 1..n |-> DNum]
         \o <<DArr([h \in 1..(n + 1) |-> h + n + 5])>> \o [h \in 1..n |-> DNum] \o <<DZero>>
         \o <<DObj([h \in 1..n |-> KeyNo(h - 1)], [h \in 1..n |-> h + 2 * n + 7])>> \o [h \in 1..n |-> DNum]
         \o << DStr(Rep(<<233>>, n)), DStr(Rep(<<233>>, n) \o la) >>
    [] f.doc = "str" -> <<DArr(<<2>>), DStr(Rep(la, n))>>
    [] f.doc = "emoji" -> <<DArr(<<2>>), DStr(Rep(<<128512>>, n))>>
    [] f.doc = "keys" -> <<DObj(<<Rep(la, n)>>, <<2>>), DNum>>
    [] f.doc = "pat-paren" -> Sub(<<la, Rep(<<40>>, n) \o la \o Rep(<<41>>, n)>>)
    [] f.doc = "pat-long" -> Sub(<<Rep(la, n), Rep(la, n)>>)
    [] f.doc = "pat-alt" -> Sub(<<la, Rep(<<98, 124>>, n) \o la>>)
    [] f.doc = "pat-class" -> Sub(<<la, <<91>> \o Rep(<<98>>, n) \o <<97, 93>>>>)
    [] f.doc = "pat-open" -> Sub(<<la, Rep(<<40>>, n)>>)
    [] f.doc = "pat-star" -> Sub(<<Rep(la, n), <<40, 97, 124, 97, 97, 41, 42, 98>>>>)
    [] f.doc = "pat-opt" -> Sub(<<Rep(la, n), Rep(<<40, 97, 63, 41>>, n) \o <<98>>>>)

Count(f, n) == f.c0 + f.c1 * n + f.c2 * n * n
\* which nodes, for families with a regular answer: ids in arithmetic progression
Progression(f, n) == [j \in 1..Count(f, n) |-> f.prog[1] + f.prog[2] * n + (j - 1) * f.prog[3]]

\* the normalized path of a node of the document, by its preorder id
Located == {"one", "wide-a", "rows", "sparse", "deep-a", "deep-o", "deep-m"}
InA(j) == <<91>> \o DecCps(j) \o <<93>>
InO == <<91, 39, 97, 39, 93>>
PathOf(f, n, id) ==
  LET h == id \div 2 IN
  <<36>> \o
  CASE id = 1 -> <<>>
    [] f.doc = "wide-a" -> InA(id - 2)
    [] f.doc = "sparse" -> IF id <= n + 2 THEN InA(id - 2) ELSE InA(n) \o InO
    [] f.doc = "rows" -> InA(h - 1) \o (IF id = 2 * h THEN <<>> ELSE InO)
    [] f.doc = "deep-a" -> Rep(InA(0), id - 1)
    [] f.doc = "deep-o" -> Rep(InO, id - 1)
    [] f.doc = "deep-m" -> Rep(InO \o InA(0), (id - 1) \div 2) \o (IF id = 2 * h THEN InO ELSE <<>>)
=============================================================================
