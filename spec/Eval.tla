-------------------------------- MODULE Eval --------------------------------
(***************************************************************************)
(* Evaluation of RFC 9535 queries on a document.                           *)
(*                                                                         *)
(* A document d is a sequence of nodes in document order (preorder); a     *)
(* node is named by its position.  A node is [t |-> "z"], [t |-> "b", b],  *)
(* [t |-> "n", m] (m a Num), [t |-> "s", s], [t |-> "a", c] (c children)   *)
(* or [t |-> "o", k, c] (k member names).  A node list is a sequence of    *)
(* positions, so identity, order and repetition of nodes are observable.   *)
(*                                                                         *)
(* A value is [t |-> "none"], a scalar node, or [t |-> "ref", id] for an   *)
(* array or object of the document.                                        *)
(***************************************************************************)
EXTENDS Syntax, IRegexp, Slices

\* --- children -----------------------------------------------------------------
Kids(d, n) == IF d[n].t \in {"a", "o"} THEN d[n].c ELSE <<>>

RECURSIVE Desc(_, _), DescAll(_, _)
\* a node and its descendants in document order
Desc(d, n) == <<n>> \o DescAll(d, Kids(d, n))
DescAll(d, ns) == IF ns = <<>> THEN <<>> ELSE Desc(d, ns[1]) \o DescAll(d, Tail(ns))

\* --- slices, RFC 9535 2.3.4.2.2: the bounds are in Slices ---------------------

RECURSIVE UpFrom(_, _, _), DownFrom(_, _, _)
UpFrom(i, upper, step) == IF i >= upper THEN <<>> ELSE <<i>> \o UpFrom(i + step, upper, step)
DownFrom(i, lower, step) == IF i <= lower THEN <<>> ELSE <<i>> \o DownFrom(i + step, lower, step)

\* zero-based positions, given optional integers
SliceIx(a, b, c, len) ==
  LET step == IF c = <<>> THEN 1 ELSE c[1]
      start == IF a # <<>> THEN a[1] ELSE IF step >= 0 THEN 0 ELSE len - 1
      end == IF b # <<>> THEN b[1] ELSE IF step >= 0 THEN len ELSE 0 - len - 1
      bo == Bounds(start, end, step, len) IN
  IF step = 0 \/ len = 0 THEN <<>>
  ELSE IF step > 0 THEN UpFrom(bo.lower, bo.upper, step)
  ELSE DownFrom(bo.upper, bo.lower, step)

\* the same positions in closed form: first, first + step, ..., count of them
SliceRun(a, b, c, len) ==
  LET step == IF c = <<>> THEN 1 ELSE c[1]
      start == IF a # <<>> THEN a[1] ELSE IF step >= 0 THEN 0 ELSE len - 1
      end == IF b # <<>> THEN b[1] ELSE IF step >= 0 THEN len ELSE 0 - len - 1
      bo == Bounds(start, end, step, len)
      span == Max(bo.upper - bo.lower, 0)
      size == IF step < 0 THEN 0 - step ELSE step IN
  [first |-> IF step > 0 THEN bo.lower ELSE bo.upper, step |-> step,
   count |-> IF step = 0 \/ span = 0 THEN 0 ELSE 1 + ((span - 1) \div size)]

OptI(x) == IF x = <<>> THEN <<>> ELSE <<ToInt(x[1])>>

\* --- values -------------------------------------------------------------------
None == [t |-> "none"]
ValOf(d, n) == IF d[n].t \in {"a", "o"} THEN [t |-> "ref", id |-> n] ELSE d[n]
Member(d, n, name) == {j \in DOMAIN d[n].k : d[n].k[j] = name}

RECURSIVE SameNode(_, _, _)
SameNode(d, x, y) ==
  IF x = y THEN TRUE
  ELSE IF d[x].t # d[y].t THEN FALSE
  ELSE CASE d[x].t = "z" -> TRUE
         [] d[x].t = "b" -> d[x].b = d[y].b
         [] d[x].t = "n" -> d[x].m = d[y].m
         [] d[x].t = "s" -> d[x].s = d[y].s
         [] d[x].t = "a" -> /\ Len(d[x].c) = Len(d[y].c)
                            /\ \A j \in DOMAIN d[x].c : SameNode(d, d[x].c[j], d[y].c[j])
         [] OTHER -> /\ Len(d[x].c) = Len(d[y].c)
                     /\ \A j \in DOMAIN d[x].c :
                          \E h \in DOMAIN d[y].c : d[x].k[j] = d[y].k[h] /\ SameNode(d, d[x].c[j], d[y].c[h])

ValEq(d, a, b) ==
  IF a.t # b.t THEN FALSE
  ELSE CASE a.t \in {"none", "z"} -> TRUE
         [] a.t = "b" -> a.b = b.b
         [] a.t = "n" -> a.m = b.m
         [] a.t = "s" -> a.s = b.s
         [] OTHER -> SameNode(d, a.id, b.id)

RECURSIVE StrLt(_, _, _)
StrLt(x, y, i) ==
  IF i > Len(y) THEN FALSE
  ELSE IF i > Len(x) THEN TRUE
  ELSE IF x[i] # y[i] THEN x[i] < y[i] ELSE StrLt(x, y, i + 1)

ValLt(a, b) ==
  CASE a.t = "n" /\ b.t = "n" -> NumLt(a.m, b.m)
    [] a.t = "s" /\ b.t = "s" -> StrLt(a.s, b.s, 1)
    [] OTHER -> FALSE

Compare(d, op, a, b) ==
  CASE op = "==" -> ValEq(d, a, b)
    [] op = "!=" -> ~ValEq(d, a, b)
    [] op = "<" -> ValLt(a, b)
    [] op = ">" -> ValLt(b, a)
    [] op = "<=" -> ValLt(a, b) \/ ValEq(d, a, b)
    [] op = ">=" -> ValLt(b, a) \/ ValEq(d, a, b)

ONum(i) == [t |-> "n", m |-> FromInt(i)]

\* --- names of the functions ---------------------------------------------------
\* the custom functions that the harness registers (harness/src/exts.rs)
Ext_(n, p, r) == [n |-> n, p |-> p, r |-> r]
CustomFns == << Ext_(<<118, 118>>, <<"V">>, "V"), Ext_(<<118, 108>>, <<"V">>, "L"), Ext_(<<108, 108>>, <<"L">>, "L"),
                Ext_(<<108, 118>>, <<"L">>, "V"), Ext_(<<110, 108>>, <<"N">>, "L"), Ext_(<<110, 110>>, <<"N">>, "N"),
                Ext_(<<112, 105, 99, 107>>, <<"V", "L", "N">>, "V"), Ext_(<<111, 110, 101>>, <<>>, "V"),
                Ext_(<<109, 97, 115, 107, 95, 53>>, <<"V", "V", "V", "V", "V">>, "V"), Ext_(<<109, 105, 120, 52>>, <<"L", "N", "V", "N">>, "N") >>
FnTable == StdFns \o CustomFns
\* the functions of a second environment: under a name that ends in 2, another
\* function with the signature that the name without it has
Second(name) == Append(name, 50)
IsSecond(name) == name # <<>> /\ name[Len(name)] = 50
First_(name) == IF IsSecond(name) THEN SubSeq(name, 1, Len(name) - 1) ELSE name
SigOf(name) == LET b == First_(name) j == CHOOSE h \in DOMAIN FnTable : FnTable[h].n = b IN FnTable[j]
NameOf(name) ==
  CASE name = FnLength -> "length" [] name = FnCount -> "count" [] name = FnMatch -> "match" [] name = FnSearch -> "search" [] name = FnValue -> "value"
    [] name = <<118, 118>> -> "vv" [] name = <<118, 108>> -> "vl" [] name = <<108, 108>> -> "ll" [] name = <<108, 118>> -> "lv"
    [] name = <<110, 108>> -> "nl" [] name = <<110, 110>> -> "nn" [] name = <<112, 105, 99, 107>> -> "pick" [] name = <<111, 110, 101>> -> "one"
    [] name = <<109, 97, 115, 107, 95, 53>> -> "mask_5" [] name = <<109, 105, 120, 52>> -> "mix4"
    [] name = Second(<<118, 118>>) -> "vv2" [] name = Second(<<118, 108>>) -> "vl2" [] name = Second(<<108, 108>>) -> "ll2"
    [] name = Second(<<110, 108>>) -> "nl2" [] name = Second(<<110, 110>>) -> "nn2" [] name = Second(<<111, 110, 101>>) -> "one2" [] name = Second(FnCount) -> "count2"

\* --- evaluation ----------------------------------------------------------------
RECURSIVE Nodes(_, _, _, _), SegOn(_, _, _, _), SelsOn(_, _, _, _, _), SelOn(_, _, _), FilterKids(_, _, _, _),
          Truth(_, _, _), Value(_, _, _), NodesArg(_, _, _), CallFn(_, _, _)

\* Nodes(d, q, j, ns): the node list after the segments j.. of q, from ns
Nodes(d, q, j, ns) == IF j > Len(q) THEN ns ELSE Nodes(d, q, j + 1, SegOn(d, q[j], ns, <<>>))

SegOn(d, seg, ns, acc) ==
  IF ns = <<>> THEN acc
  ELSE SegOn(d, seg, Tail(ns),
             acc \o IF seg.k = "child" THEN SelsOn(d, seg.sels, 1, ns[1], <<>>)
                    ELSE LET all == Desc(d, ns[1]) IN SegOn(d, [seg EXCEPT !.k = "child"], all, <<>>))

SelsOn(d, sels, j, n, acc) == IF j > Len(sels) THEN acc ELSE SelsOn(d, sels, j + 1, n, acc \o SelOn(d, sels[j], n))

ByName(d, n, name) ==
  IF d[n].t # "o" THEN <<>>
  ELSE LET J == Member(d, n, name) IN IF J = {} THEN <<>> ELSE <<d[n].c[CHOOSE j \in J : TRUE]>>
ByIndex(d, n, num) ==
  IF d[n].t # "a" THEN <<>>
  ELSE LET i == NormIx(ToInt(num), Len(d[n].c)) IN IF i >= 0 /\ i < Len(d[n].c) THEN <<d[n].c[i + 1]>> ELSE <<>>

SelOn(d, x, n) ==
  CASE x.k = "name" -> ByName(d, n, x.name)
    [] x.k = "index" -> ByIndex(d, n, x.idx)
    [] x.k = "slice" -> IF d[n].t # "a" THEN <<>>
                        ELSE LET ix == SliceIx(OptI(x.a), OptI(x.b), OptI(x.c), Len(d[n].c)) IN [j \in DOMAIN ix |-> d[n].c[ix[j] + 1]]
    [] x.k = "wild" -> Kids(d, n)
    [] x.k = "filter" -> FilterKids(d, x.x, Kids(d, n), <<>>)
    [] x.k = "sq" -> LET r == Nodes(d, x.q, 1, <<1>>) IN
                     IF Len(r) # 1 THEN <<>>
                     ELSE LET v == d[r[1]] IN
                          CASE v.t = "s" -> ByName(d, n, v.s)
                            [] v.t = "n" /\ IsInteger(v.m) -> ByIndex(d, n, v.m)
                            [] OTHER -> <<>>

FilterKids(d, x, ks, acc) ==
  IF ks = <<>> THEN acc
  ELSE FilterKids(d, x, Tail(ks), IF Truth(d, x, ks[1]) THEN Append(acc, ks[1]) ELSE acc)

QueryOn(d, x, cur) == Nodes(d, x.q, 1, IF x.k = "abs" THEN <<1>> ELSE <<cur>>)

Truth(d, x, cur) ==
  CASE x.k = "paren" -> Truth(d, x.x, cur)
    [] x.k = "not" -> ~Truth(d, x.x, cur)
    [] x.k = "and" -> \A j \in DOMAIN x.xs : Truth(d, x.xs[j], cur)
    [] x.k = "or" -> \E j \in DOMAIN x.xs : Truth(d, x.xs[j], cur)
    [] x.k = "cmp" -> Compare(d, x.op, Value(d, x.l, cur), Value(d, x.r, cur))
    [] x.k \in {"rel", "abs"} -> QueryOn(d, x, cur) # <<>>
    [] x.k = "fn" -> LET r == CallFn(d, x, cur) IN IF SigOf(x.fname).r = "N" THEN r # <<>> ELSE r

Value(d, x, cur) ==
  CASE x.k = "str" -> [t |-> "s", s |-> x.str]
    [] x.k = "num" -> [t |-> "n", m |-> x.num]
    [] x.k = "bool" -> [t |-> "b", b |-> x.bool]
    [] x.k = "null" -> [t |-> "z"]
    [] x.k = "fn" -> CallFn(d, x, cur)
    [] OTHER -> LET r == QueryOn(d, x, cur) IN IF r = <<>> THEN None ELSE ValOf(d, r[1])

NodesArg(d, x, cur) == IF x.k = "fn" THEN CallFn(d, x, cur) ELSE QueryOn(d, x, cur)

\* The result of a call: a value, a truth value or a node list, by its signature.
CallFn(d, x, cur) ==
  LET n == NameOf(x.fname)
      V(j) == Value(d, x.args[j], cur)
      L(j) == Truth(d, x.args[j], cur)
      N(j) == NodesArg(d, x.args[j], cur) IN
  CASE n = "length" ->
         LET v == V(1) IN
         CASE v.t = "s" -> ONum(Len(v.s))
           [] v.t = "ref" -> ONum(Len(d[v.id].c))
           [] OTHER -> None
    [] n = "count" -> ONum(Len(N(1)))
    [] n = "value" -> LET r == N(1) IN IF Len(r) = 1 THEN ValOf(d, r[1]) ELSE None
    [] n = "match" -> LET a == V(1) b == V(2) IN a.t = "s" /\ b.t = "s" /\ FullMatch(a.s, b.s)
    [] n = "search" -> LET a == V(1) b == V(2) IN a.t = "s" /\ b.t = "s" /\ FindMatch(a.s, b.s)
    [] n = "vv" -> V(1)
    [] n = "vl" -> V(1).t # "none"
    [] n = "ll" -> L(1)
    [] n = "lv" -> ONum(IF L(1) THEN 1 ELSE 0)
    [] n = "nl" -> Len(N(1)) >= 2
    [] n = "nn" -> N(1)
    [] n = "pick" -> ONum((IF V(1).t # "none" THEN 100 ELSE 0) + (IF L(2) THEN 10 ELSE 0) + Len(N(3)))
    [] n = "one" -> ONum(1)
    [] n = "mask_5" -> LET P(j, w) == IF V(j).t # "none" THEN w ELSE 0 IN ONum(P(1, 10000) + P(2, 1000) + P(3, 100) + P(4, 10) + P(5, 1))
    [] n = "mix4" -> IF ~L(1) THEN N(4) ELSE IF V(3).t = "none" THEN N(2) ELSE N(2) \o N(4)
    [] n = "vv2" -> ONum(7)
    [] n = "vl2" -> V(1).t = "none"
    [] n = "ll2" -> ~L(1)
    [] n = "nl2" -> Len(N(1)) < 2
    [] n = "nn2" -> LET r == N(1) IN IF r = <<>> THEN r ELSE <<r[1]>>
    [] n = "one2" -> ONum(2)
    [] n = "count2" -> ONum(10 * Len(N(1)))

Result(d, q) == Nodes(d, q, 1, <<1>>)

\* --- normalized paths, RFC 9535 2.7 -------------------------------------------
HexDigit(v) == IF v < 10 THEN 48 + v ELSE 87 + v
EscName(c) ==
  CASE c = 8 -> <<92, 98>> [] c = 9 -> <<92, 116>> [] c = 10 -> <<92, 110>> [] c = 12 -> <<92, 102>> [] c = 13 -> <<92, 114>>
    [] c = 39 -> <<92, 39>> [] c = 92 -> <<92, 92>>
    [] c < 32 -> <<92, 117, 48, 48, HexDigit(c \div 16), HexDigit(c % 16)>>
    [] OTHER -> <<c>>
RECURSIVE EscAll(_, _, _)
EscAll(s, i, acc) == IF i > Len(s) THEN acc ELSE EscAll(s, i + 1, acc \o EscName(s[i]))
RECURSIVE DecCps(_)
DecCps(k) == IF k < 10 THEN <<48 + k>> ELSE Append(DecCps(k \div 10), 48 + (k % 10))

\* the child of cur that is n or its ancestor: the last one not after n
RECURSIVE PathFrom(_, _, _, _)
PathFrom(d, cur, n, acc) ==
  IF cur = n THEN acc
  ELSE LET c == d[cur].c
           J == {j \in DOMAIN c : c[j] <= n}
           j == CHOOSE h \in J : \A g \in J : g <= h
           step == IF d[cur].t = "a" THEN <<91>> \o DecCps(j - 1) \o <<93>>
                   ELSE <<91, 39>> \o EscAll(d[cur].k[j], 1, <<>>) \o <<39, 93>>
       IN PathFrom(d, c[j], n, acc \o step)
Path(d, n) == PathFrom(d, 1, n, <<36>>)
=============================================================================
