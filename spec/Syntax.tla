------------------------------- MODULE Syntax -------------------------------
(***************************************************************************)
(* RFC 9535 as a recogniser: text (a sequence of Unicode scalar values)    *)
(* to syntax tree, or failure.  Transcribed from the ABNF of RFC 9535      *)
(* Appendix A and the well-typedness rules of section 2.4.3, not from the  *)
(* code.                                                                   *)
(*                                                                         *)
(* m is the mode, a record                                                 *)
(*   ext : the two syntax extensions of the singular-selector crate        *)
(*   lo, hi : accepted range of index integers (Num)                       *)
(*   fns : registered signatures, a sequence of [n, p, r] with n a name,   *)
(*         p a sequence of "V" "L" "N", r one of them                      *)
(*                                                                         *)
(* Every parsing operator takes (s, i, m) and yields [ok, i, v]: whether a *)
(* phrase starts at i, the position after it, and its tree.                *)
(***************************************************************************)
EXTENDS Num

No == [ok |-> FALSE, i |-> 0, v |-> [k |-> "none"]]
Yes(i, v) == [ok |-> TRUE, i |-> i, v |-> v]

At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE -1

\* --- character classes -------------------------------------------------------
DQ == 34  SQ == 39  BS == 92
IsB(c) == c = 32 \/ c = 9 \/ c = 10 \/ c = 13
IsDigit(c) == c >= 48 /\ c <= 57
IsDigit1(c) == c >= 49 /\ c <= 57
IsLower(c) == c >= 97 /\ c <= 122
IsAlpha(c) == (c >= 65 /\ c <= 90) \/ IsLower(c)
IsNameFirst(c) == IsAlpha(c) \/ c = 95 \/ c >= 128
IsNameChar(c) == IsNameFirst(c) \/ IsDigit(c)
IsFnChar(c) == IsLower(c) \/ c = 95 \/ IsDigit(c)
HexVal(c) == IF IsDigit(c) THEN c - 48
             ELSE IF c >= 65 /\ c <= 70 THEN c - 55
             ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE -1

RECURSIVE SkipS(_, _)
SkipS(s, i) == IF IsB(At(s, i)) THEN SkipS(s, i + 1) ELSE i

\* --- strings -----------------------------------------------------------------
Hex4(s, i) ==
  LET a == HexVal(At(s, i)) b == HexVal(At(s, i + 1))
      c == HexVal(At(s, i + 2)) d == HexVal(At(s, i + 3))
  IN IF a < 0 \/ b < 0 \/ c < 0 \/ d < 0 THEN -1 ELSE ((a * 16 + b) * 16 + c) * 16 + d

IsHigh(u) == u >= 55296 /\ u <= 56319
IsLow(u) == u >= 56320 /\ u <= 57343

\* One character of a string quoted with q, at i: [w, c], w the number of text
\* characters it takes (0: not a legal character) and c the character it denotes.
StrChar(s, i, q) ==
  LET c == At(s, i) IN
  IF c < 32 THEN [w |-> 0, c |-> 0]
  ELSE IF c # BS THEN [w |-> IF c = q THEN 0 ELSE 1, c |-> c]
  ELSE LET x == At(s, i + 1) IN
    CASE x = q -> [w |-> 2, c |-> q]
      [] x = 98 -> [w |-> 2, c |-> 8]
      [] x = 102 -> [w |-> 2, c |-> 12]
      [] x = 110 -> [w |-> 2, c |-> 10]
      [] x = 114 -> [w |-> 2, c |-> 13]
      [] x = 116 -> [w |-> 2, c |-> 9]
      [] x = 47 -> [w |-> 2, c |-> 47]
      [] x = BS -> [w |-> 2, c |-> BS]
      [] x = 117 ->
           LET u == Hex4(s, i + 2) IN
           IF u < 0 \/ IsLow(u) THEN [w |-> 0, c |-> 0]
           ELSE IF ~IsHigh(u) THEN [w |-> 6, c |-> u]
           ELSE LET l == IF At(s, i + 6) = BS /\ At(s, i + 7) = 117 THEN Hex4(s, i + 8) ELSE -1 IN
                IF IsLow(l)
                THEN [w |-> 12, c |-> 65536 + (u - 55296) * 1024 + (l - 56320)]
                ELSE [w |-> 0, c |-> 0]
      [] OTHER -> [w |-> 0, c |-> 0]

RECURSIVE StrBody(_, _, _, _)
StrBody(s, i, q, acc) ==
  IF At(s, i) = q THEN Yes(i + 1, acc)
  ELSE LET c == StrChar(s, i, q) IN
       IF c.w = 0 THEN No ELSE StrBody(s, i + c.w, q, Append(acc, c.c))

PString(s, i) ==
  IF At(s, i) \in {DQ, SQ} THEN StrBody(s, i + 1, At(s, i), <<>>) ELSE No

\* --- numbers -----------------------------------------------------------------
RECURSIVE Digits(_, _, _)
Digits(s, i, acc) == IF IsDigit(At(s, i)) THEN Digits(s, i + 1, Append(acc, s[i] - 48)) ELSE [i |-> i, d |-> acc]

\* int = "0" / (["-"] DIGIT1 *DIGIT)
PInt(s, i) ==
  IF At(s, i) = 48 THEN Yes(i + 1, Zero)
  ELSE LET neg == At(s, i) = 45
           j == IF neg THEN i + 1 ELSE i IN
       IF ~IsDigit1(At(s, j)) THEN No
       ELSE LET r == Digits(s, j, <<>>) IN Yes(r.i, Norm(IF neg THEN 1 ELSE 0, r.d, 0))

\* number = (int / "-0") [frac] [exp]
PNumber(s, i) ==
  LET neg == At(s, i) = 45
      j == IF neg THEN i + 1 ELSE i
      ip == IF At(s, j) = 48 THEN [i |-> j + 1, d |-> <<0>>] ELSE Digits(s, j, <<>>) IN
  IF ip.d = <<>> THEN No
  ELSE
    LET fp == IF At(s, ip.i) = 46 /\ IsDigit(At(s, ip.i + 1)) THEN Digits(s, ip.i + 1, <<>>)
              ELSE [i |-> ip.i, d |-> <<>>]
        isE == At(s, fp.i) \in {101, 69}
        sg == At(s, fp.i + 1)
        k == IF isE /\ sg \in {43, 45} THEN fp.i + 2 ELSE fp.i + 1
        ep == IF isE /\ IsDigit(At(s, k)) THEN Digits(s, k, <<>>) ELSE [i |-> fp.i, d |-> <<>>]
        ev == IF ep.d = <<>> THEN 0
              ELSE LET v == ToInt(Norm(0, ep.d, 0)) IN IF sg = 45 THEN 0 - v ELSE v
    IN Yes(ep.i, Norm(IF neg THEN 1 ELSE 0, ip.d \o fp.d, ev - Len(fp.d)))

\* --- names -------------------------------------------------------------------
RECURSIVE NameEnd(_, _)
NameEnd(s, i) == IF IsNameChar(At(s, i)) THEN NameEnd(s, i + 1) ELSE i
RECURSIVE FnEnd(_, _)
FnEnd(s, i) == IF IsFnChar(At(s, i)) THEN FnEnd(s, i + 1) ELSE i

PShorthand(s, i) ==
  IF ~IsNameFirst(At(s, i)) THEN No
  ELSE LET j == NameEnd(s, i) IN Yes(j, [k |-> "name", name |-> SubSeq(s, i, j - 1)])

StartsWith(s, i, w) == i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w
KwTrue == <<116, 114, 117, 101>>
KwFalse == <<102, 97, 108, 115, 101>>
KwNull == <<110, 117, 108, 108>>

PLiteral(s, i) ==
  LET c == At(s, i) IN
  CASE c \in {DQ, SQ} -> LET r == PString(s, i) IN IF r.ok THEN Yes(r.i, [k |-> "str", str |-> r.v]) ELSE No
    [] c = 45 \/ IsDigit(c) -> LET r == PNumber(s, i) IN IF r.ok THEN Yes(r.i, [k |-> "num", num |-> r.v]) ELSE No
    [] StartsWith(s, i, KwTrue) -> Yes(i + 4, [k |-> "bool", bool |-> TRUE])
    [] StartsWith(s, i, KwFalse) -> Yes(i + 5, [k |-> "bool", bool |-> FALSE])
    [] StartsWith(s, i, KwNull) -> Yes(i + 4, [k |-> "null"])
    [] OTHER -> No

CompOp(s, i) ==
  LET a == At(s, i) b == At(s, i + 1) IN
  CASE a = 61 /\ b = 61 -> [w |-> 2, op |-> "=="]
    [] a = 33 /\ b = 61 -> [w |-> 2, op |-> "!="]
    [] a = 60 /\ b = 61 -> [w |-> 2, op |-> "<="]
    [] a = 62 /\ b = 61 -> [w |-> 2, op |-> ">="]
    [] a = 60 -> [w |-> 1, op |-> "<"]
    [] a = 62 -> [w |-> 1, op |-> ">"]
    [] OTHER -> [w |-> 0, op |-> ""]

IntInRange(x, m) == NumLe(m.lo, x) /\ NumLe(x, m.hi)

\* A query tree is a sequence of segments [k, sels, tight]; tight: no blank space
\* directly inside the brackets, which the ABNF of singular queries demands.
SingularSel(x) == x.k \in {"name", "index"}
SingularShape(q) == \A j \in DOMAIN q : q[j].k = "child" /\ Len(q[j].sels) = 1 /\ SingularSel(q[j].sels[1])
SingularTight(q) == \A j \in DOMAIN q : q[j].tight

\* A word followed by "(" can only be a call, also of "true", "false" or "null":
\* nothing else begins with a lower case letter, and no literal stands before "(".
IsFnStart(s, i) == IsLower(At(s, i)) /\ At(s, FnEnd(s, i)) = 40

\* --- the mutually recursive part ---------------------------------------------
RECURSIVE PSegs(_, _, _, _), PSegment(_, _, _), PBracketed(_, _, _), PSelList(_, _, _, _),
          PSelector(_, _, _), POr(_, _, _), POrRest(_, _, _, _), PAnd(_, _, _), PAndRest(_, _, _, _),
          PBasic(_, _, _), PComparable(_, _, _), PFunction(_, _, _), PArgs(_, _, _, _), PArg(_, _, _),
          PFilterQuery(_, _, _), PSingSegs(_, _, _, _), PSingSel(_, _, _)

\* segments = *(S segment): stops before the blank space that no segment follows
PSegs(s, i, m, acc) ==
  LET j == SkipS(s, i) IN
  IF At(s, j) \in {46, 91}
  THEN LET r == PSegment(s, j, m) IN IF r.ok THEN PSegs(s, r.i, m, Append(acc, r.v)) ELSE No
  ELSE Yes(i, acc)

Seg(kind, sels, tight) == [k |-> kind, sels |-> sels, tight |-> tight]

PSegment(s, i, m) ==
  IF At(s, i) = 91
  THEN LET r == PBracketed(s, i, m) IN IF r.ok THEN Yes(r.i, Seg("child", r.v.sels, r.v.tight)) ELSE No
  ELSE LET desc == At(s, i + 1) = 46
           kind == IF desc THEN "desc" ELSE "child"
           j == IF desc THEN i + 2 ELSE i + 1
           c == At(s, j) IN
       CASE c = 42 -> Yes(j + 1, Seg(kind, <<[k |-> "wild"]>>, TRUE))
         [] desc /\ c = 91 -> LET r == PBracketed(s, j, m) IN IF r.ok THEN Yes(r.i, Seg(kind, r.v.sels, r.v.tight)) ELSE No
         [] OTHER -> LET r == PShorthand(s, j) IN IF r.ok THEN Yes(r.i, Seg(kind, <<r.v>>, TRUE)) ELSE No

PBracketed(s, i, m) ==
  LET j == SkipS(s, i + 1)
      r == PSelector(s, j, m) IN
  IF ~r.ok THEN No
  ELSE LET t == PSelList(s, r.i, m, <<r.v>>) IN
       IF ~t.ok THEN No
       ELSE Yes(t.i, [sels |-> t.v, tight |-> j = i + 1 /\ t.i = r.i + 1])

PSelList(s, i, m, acc) ==
  LET j == SkipS(s, i) IN
  CASE At(s, j) = 93 -> Yes(j + 1, acc)
    [] At(s, j) = 44 -> LET r == PSelector(s, SkipS(s, j + 1), m) IN
                        IF r.ok THEN PSelList(s, r.i, m, Append(acc, r.v)) ELSE No
    [] OTHER -> No

OptInt(s, i) == IF At(s, i) = 45 \/ IsDigit(At(s, i)) THEN PInt(s, i) ELSE No

\* "[" already consumed and blanks skipped
PSelector(s, i, m) ==
  LET c == At(s, i) IN
  CASE c \in {DQ, SQ} -> LET r == PString(s, i) IN IF r.ok THEN Yes(r.i, [k |-> "name", name |-> r.v]) ELSE No
    [] c = 42 -> Yes(i + 1, [k |-> "wild"])
    [] c = 63 -> LET r == POr(s, SkipS(s, i + 1), m) IN IF r.ok THEN Yes(r.i, [k |-> "filter", x |-> r.v]) ELSE No
    [] c = 45 \/ c = 58 \/ IsDigit(c) ->
        LET a == OptInt(s, i)
            bad == c # 58 /\ (~a.ok \/ ~IntInRange(a.v, m))
            j == IF a.ok THEN SkipS(s, a.i) ELSE i IN
        IF bad THEN No
        ELSE IF At(s, j) # 58 THEN (IF a.ok THEN Yes(a.i, [k |-> "index", idx |-> a.v]) ELSE No)
        ELSE LET b0 == SkipS(s, j + 1)
                 hasB == At(s, b0) = 45 \/ IsDigit(At(s, b0))
                 b == OptInt(s, b0)
                 e1 == IF b.ok THEN b.i ELSE j + 1   \* end so far
                 j2 == SkipS(s, e1)
                 colon2 == At(s, j2) = 58
                 c0 == SkipS(s, j2 + 1)
                 hasC == colon2 /\ (At(s, c0) = 45 \/ IsDigit(At(s, c0)))
                 st == IF colon2 THEN OptInt(s, c0) ELSE No
                 end == IF hasC THEN st.i ELSE IF colon2 THEN j2 + 1 ELSE e1
             IN IF (hasB /\ (~b.ok \/ ~IntInRange(b.v, m))) \/ (hasC /\ (~st.ok \/ ~IntInRange(st.v, m))) THEN No
                ELSE Yes(end, [k |-> "slice",
                               a |-> IF a.ok THEN <<a.v>> ELSE <<>>,
                               b |-> IF hasB THEN <<b.v>> ELSE <<>>,
                               c |-> IF hasC THEN <<st.v>> ELSE <<>>])
    [] m.ext /\ (c = 36 \/ c = 91 \/ IsNameFirst(c)) -> PSingSel(s, i, m)
    [] OTHER -> No

\* Singular query selector of the extended syntax: an absolute singular query,
\* or the same without its '$' (then not empty).
PSingSel(s, i, m) ==
  LET c == At(s, i)
      r == IF c = 36 THEN PSingSegs(s, i + 1, m, <<>>)
           ELSE IF c = 91 THEN LET b == PBracketed(s, i, m) IN
                  IF ~b.ok THEN No
                  ELSE PSingSegs(s, b.i, m, <<Seg("child", b.v.sels, b.v.tight)>>)
           ELSE LET n == PShorthand(s, i) IN PSingSegs(s, n.i, m, <<Seg("child", <<n.v>>, TRUE)>>)
  IN IF r.ok /\ SingularShape(r.v) /\ SingularTight(r.v) THEN Yes(r.i, [k |-> "sq", q |-> r.v]) ELSE No

PSingSegs(s, i, m, acc) == PSegs(s, i, m, acc)

POr(s, i, m) ==
  LET r == PAnd(s, i, m) IN
  IF ~r.ok THEN No ELSE POrRest(s, r.i, m, <<r.v>>)
POrRest(s, i, m, acc) ==
  LET j == SkipS(s, i) IN
  IF At(s, j) = 124 /\ At(s, j + 1) = 124
  THEN LET r == PAnd(s, SkipS(s, j + 2), m) IN IF r.ok THEN POrRest(s, r.i, m, Append(acc, r.v)) ELSE No
  ELSE Yes(i, IF Len(acc) = 1 THEN acc[1] ELSE [k |-> "or", xs |-> acc])

PAnd(s, i, m) ==
  LET r == PBasic(s, i, m) IN
  IF ~r.ok THEN No ELSE PAndRest(s, r.i, m, <<r.v>>)
PAndRest(s, i, m, acc) ==
  LET j == SkipS(s, i) IN
  IF At(s, j) = 38 /\ At(s, j + 1) = 38
  THEN LET r == PBasic(s, SkipS(s, j + 2), m) IN IF r.ok THEN PAndRest(s, r.i, m, Append(acc, r.v)) ELSE No
  ELSE Yes(i, IF Len(acc) = 1 THEN acc[1] ELSE [k |-> "and", xs |-> acc])

PParen(s, i, m) ==
  LET r == POr(s, SkipS(s, i + 1), m)
      j == SkipS(s, r.i) IN
  IF r.ok /\ At(s, j) = 41 THEN Yes(j + 1, [k |-> "paren", x |-> r.v]) ELSE No

PBasic(s, i, m) ==
  LET c == At(s, i) IN
  CASE c = 33 ->
         LET j == SkipS(s, i + 1)
             r == CASE At(s, j) = 40 -> PParen(s, j, m)
                    [] At(s, j) \in {36, 64} -> PFilterQuery(s, j, m)
                    [] IsLower(At(s, j)) -> PFunction(s, j, m)
                    [] OTHER -> No
         IN IF r.ok THEN Yes(r.i, [k |-> "not", x |-> r.v]) ELSE No
    [] c = 40 -> PParen(s, i, m)
    [] OTHER ->
         LET l == PComparable(s, i, m) IN
         IF ~l.ok THEN No
         ELSE LET j == SkipS(s, l.i)
                  o == CompOp(s, j) IN
              IF o.w = 0
              THEN IF l.v.k \in {"rel", "abs", "fn"} THEN l ELSE No
              ELSE LET r == PComparable(s, SkipS(s, j + o.w), m) IN
                   IF r.ok THEN Yes(r.i, [k |-> "cmp", op |-> o.op, l |-> l.v, r |-> r.v]) ELSE No

\* literal, any query, or function; whether a compared query is singular is
\* checked afterwards (Faults)
PComparable(s, i, m) ==
  LET c == At(s, i) IN
  IF c \in {36, 64} THEN PFilterQuery(s, i, m)
  ELSE IF IsFnStart(s, i) THEN PFunction(s, i, m)
  ELSE PLiteral(s, i)

PFilterQuery(s, i, m) ==
  LET r == PSegs(s, i + 1, m, <<>>) IN
  IF r.ok THEN Yes(r.i, [k |-> IF s[i] = 64 THEN "rel" ELSE "abs", q |-> r.v]) ELSE No

PFunction(s, i, m) ==
  LET j == FnEnd(s, i) IN
  IF ~IsFnStart(s, i) THEN No
  ELSE LET k == SkipS(s, j + 1)
           r == IF At(s, k) = 41 THEN Yes(k + 1, <<>>)
                ELSE LET a == PArg(s, k, m) IN IF a.ok THEN PArgs(s, a.i, m, <<a.v>>) ELSE No
       IN IF r.ok THEN Yes(r.i, [k |-> "fn", fname |-> SubSeq(s, i, j - 1), args |-> r.v]) ELSE No

PArgs(s, i, m, acc) ==
  LET j == SkipS(s, i) IN
  CASE At(s, j) = 41 -> Yes(j + 1, acc)
    [] At(s, j) = 44 -> LET a == PArg(s, SkipS(s, j + 1), m) IN
                        IF a.ok THEN PArgs(s, a.i, m, Append(acc, a.v)) ELSE No
    [] OTHER -> No

PArg(s, i, m) ==
  LET c == At(s, i)
      isFn == IsFnStart(s, i)
      l == IF isFn \/ c \in {33, 36, 40, 64} THEN No ELSE PLiteral(s, i) IN
  IF l.ok /\ CompOp(s, SkipS(s, l.i)).w = 0 THEN l ELSE POr(s, i, m)

\* --- whole texts --------------------------------------------------------------
\* [ok, v]
ParseText(s, m) ==
  LET r == IF At(s, 1) = 36 THEN PSegs(s, 2, m, <<>>)
           ELSE IF ~m.ext THEN No
           ELSE IF At(s, 1) = 91 THEN PSegs(s, 1, m, <<>>)
           ELSE LET n == PShorthand(s, 1) IN
                IF n.ok THEN PSegs(s, n.i, m, <<Seg("child", <<n.v>>, TRUE)>>) ELSE No
  IN IF r.ok /\ r.i = Len(s) + 1 THEN [ok |-> TRUE, v |-> r.v] ELSE [ok |-> FALSE, v |-> <<>>]

(***************************************************************************)
(* Faults of a well-formed tree, as a set of                               *)
(*   "name"  a function that is not registered                             *)
(*   "type"  a call or use of a function that is not well-typed            *)
(*   "nonsingular"  a compared query that is not singular                  *)
(*   "blank" a compared singular query with blanks inside brackets, which  *)
(*           the ABNF does not derive                                      *)
(***************************************************************************)
FnSig(name, m) ==
  LET J == {j \in DOMAIN m.fns : m.fns[j].n = name} IN
  IF J = {} THEN [p |-> <<>>, r |-> "?"] ELSE m.fns[CHOOSE j \in J : \A h \in J : h <= j]

RECURSIVE FaultsQ(_, _), FaultsX(_, _, _), FaultsOperand(_, _), FaultsFn(_, _), FaultsArg(_, _, _)

FaultsQ(q, m) ==
  UNION {LET sel == q[j].sels[h] IN
         IF sel.k = "filter" THEN FaultsX(sel.x, "test", m) ELSE {}
         : <<j, h>> \in UNION {{<<jj, hh>> : hh \in DOMAIN q[jj].sels} : jj \in DOMAIN q}}

\* in a logical position
FaultsX(x, ctx, m) ==
  CASE x.k \in {"or", "and"} -> UNION {FaultsX(x.xs[j], "test", m) : j \in DOMAIN x.xs}
    [] x.k \in {"not", "paren"} -> FaultsX(x.x, "test", m)
    [] x.k = "cmp" -> FaultsOperand(x.l, m) \cup FaultsOperand(x.r, m)
    [] x.k \in {"rel", "abs"} -> FaultsQ(x.q, m)
    [] x.k = "fn" -> FaultsFn(x, m) \cup (IF FnSig(x.fname, m).r = "V" THEN {"type"} ELSE {})
    [] OTHER -> {}

SingFaults(q) ==
  IF ~SingularShape(q) THEN {"nonsingular"} ELSE IF ~SingularTight(q) THEN {"blank"} ELSE {}

FaultsOperand(x, m) ==
  CASE x.k \in {"rel", "abs"} -> SingFaults(x.q) \cup FaultsQ(x.q, m)
    [] x.k = "fn" -> FaultsFn(x, m) \cup (IF FnSig(x.fname, m).r \in {"L", "N"} THEN {"type"} ELSE {})
    [] OTHER -> {}

FaultsFn(x, m) ==
  LET g == FnSig(x.fname, m) IN
  IF g.r = "?" THEN {"name"} \cup UNION {FaultsArg(x.args[j], "?", m) : j \in DOMAIN x.args}
  ELSE IF Len(g.p) # Len(x.args) THEN {"type"} \cup UNION {FaultsArg(x.args[j], "?", m) : j \in DOMAIN x.args}
  ELSE UNION {FaultsArg(x.args[j], g.p[j], m) : j \in DOMAIN x.args}

IsLit(x) == x.k \in {"str", "num", "bool", "null"}

\* t: the declared type, "?" when unknown
FaultsArg(x, t, m) ==
  CASE IsLit(x) -> IF t \in {"V", "?"} THEN {} ELSE {"type"}
    [] x.k \in {"rel", "abs"} -> FaultsQ(x.q, m) \cup (IF t = "V" /\ ~SingularShape(x.q) THEN {"type"} ELSE {})
    [] x.k = "fn" ->
         LET r == FnSig(x.fname, m).r IN
         FaultsFn(x, m) \cup
         (CASE t = "V" -> IF r \in {"L", "N"} THEN {"type"} ELSE {}
            [] t = "L" -> IF r = "V" THEN {"type"} ELSE {}
            [] t = "N" -> IF r \in {"V", "L"} THEN {"type"} ELSE {}
            [] OTHER -> {})
    [] OTHER -> FaultsX(x, "test", m) \cup (IF t \in {"V", "N"} THEN {"type"} ELSE {})

\* --- the tree that the text denotes -------------------------------------------
\* Parentheses are dropped, nested chains of one operator flattened, and the
\* spelling attribute 'tight' forgotten.
RECURSIVE Flat(_, _), Strip(_), StripQ(_), StripSel(_)
Flat(op, xs) ==
  IF xs = <<>> THEN <<>>
  ELSE (IF xs[1].k = op THEN xs[1].xs ELSE <<xs[1]>>) \o Flat(op, Tail(xs))

Strip(x) ==
  CASE x.k = "paren" -> Strip(x.x)
    [] x.k \in {"or", "and"} -> [k |-> x.k, xs |-> Flat(x.k, [j \in DOMAIN x.xs |-> Strip(x.xs[j])])]
    [] x.k = "not" -> [k |-> "not", x |-> Strip(x.x)]
    [] x.k = "cmp" -> [k |-> "cmp", op |-> x.op, l |-> Strip(x.l), r |-> Strip(x.r)]
    [] x.k \in {"rel", "abs"} -> [k |-> x.k, q |-> StripQ(x.q)]
    [] x.k = "fn" -> [k |-> "fn", fname |-> x.fname, args |-> [j \in DOMAIN x.args |-> Strip(x.args[j])]]
    [] OTHER -> x

StripSel(x) ==
  CASE x.k = "filter" -> [k |-> "filter", x |-> Strip(x.x)]
    [] x.k = "sq" -> [k |-> "sq", q |-> StripQ(x.q)]
    [] OTHER -> x

StripQ(q) ==
  [j \in DOMAIN q |-> [k |-> q[j].k, sels |-> [h \in DOMAIN q[j].sels |-> StripSel(q[j].sels[h])]]]

\* A slice printed with its default step denotes the same slice.
One == [n |-> 0, d |-> <<1>>, e |-> 0]
RECURSIVE StepX(_), StepQ(_), StepSel(_)
StepX(x) ==
  CASE x.k \in {"or", "and"} -> [x EXCEPT !.xs = [j \in DOMAIN x.xs |-> StepX(x.xs[j])]]
    [] x.k = "not" -> [x EXCEPT !.x = StepX(x.x)]
    [] x.k = "cmp" -> [x EXCEPT !.l = StepX(x.l), !.r = StepX(x.r)]
    [] x.k \in {"rel", "abs"} -> [x EXCEPT !.q = StepQ(x.q)]
    [] x.k = "fn" -> [x EXCEPT !.args = [j \in DOMAIN x.args |-> StepX(x.args[j])]]
    [] OTHER -> x
StepSel(x) ==
  CASE x.k = "filter" -> [x EXCEPT !.x = StepX(x.x)]
    [] x.k = "sq" -> [x EXCEPT !.q = StepQ(x.q)]
    [] x.k = "slice" -> IF x.c = <<>> THEN [x EXCEPT !.c = <<One>>] ELSE x
    [] OTHER -> x
StepQ(q) == [j \in DOMAIN q |-> [q[j] EXCEPT !.sels = [h \in DOMAIN q[j].sels |-> StepSel(q[j].sels[h])]]]

\* --- modes --------------------------------------------------------------------
Str2(a, b) == <<a, b>>
FnLength == <<108, 101, 110, 103, 116, 104>>
FnCount == <<99, 111, 117, 110, 116>>
FnMatch == <<109, 97, 116, 99, 104>>
FnSearch == <<115, 101, 97, 114, 99, 104>>
FnValue == <<118, 97, 108, 117, 101>>
StdFns == << [n |-> FnLength, p |-> <<"V">>, r |-> "V"],
             [n |-> FnCount, p |-> <<"N">>, r |-> "V"],
             [n |-> FnMatch, p |-> <<"V", "V">>, r |-> "L"],
             [n |-> FnSearch, p |-> <<"V", "V">>, r |-> "L"],
             [n |-> FnValue, p |-> <<"N">>, r |-> "V"] >>
\* 2^53 - 1
Max53 == [n |-> 0, d |-> <<9, 0, 0, 7, 1, 9, 9, 2, 5, 4, 7, 4, 0, 9, 9, 1>>, e |-> 0]
Min53 == [Max53 EXCEPT !.n = 1]
Std == [ext |-> FALSE, lo |-> Min53, hi |-> Max53, fns |-> StdFns]
Ext == [Std EXCEPT !.ext = TRUE]

\* Judgement of a text: [wf, faults, v]
Judge(s, m) ==
  LET p == ParseText(s, m) IN
  [wf |-> p.ok, faults |-> IF p.ok THEN FaultsQ(p.v, m) ELSE {}, v |-> p.v]
Accepts(s, m) == LET j == Judge(s, m) IN j.wf /\ j.faults = {}
IsSingularQ(q) == SingularShape(q)
=============================================================================
