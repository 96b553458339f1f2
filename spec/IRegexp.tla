------------------------------ MODULE IRegexp ------------------------------
(***************************************************************************)
(* I-Regexp, RFC 9485: syntax (section 3, ABNF transcribed) and the        *)
(* language of a pattern over Unicode scalar values.                       *)
(*                                                                         *)
(* A pattern tree: [k |-> "set", neg, items] one character, items a        *)
(* sequence of [lo, hi] ranges or [cat, neg] categories; "cat" (sequence), *)
(* "alt", "rep" [x, lo, hi] with hi = -1 for unbounded.                    *)
(* Matching computes the set of positions where a match that starts in a   *)
(* set of positions can end, which terminates for every pattern.           *)
(***************************************************************************)
EXTENDS Integers, Sequences

RNo == [ok |-> FALSE, i |-> 0, v |-> <<>>]
RYes(i, v) == [ok |-> TRUE, i |-> i, v |-> v]
RAt(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE -1

In(c, lo, hi) == lo <= c /\ c <= hi
Scalar(c) == In(c, 0, 55295) \/ In(c, 57344, 1114111)
Range(lo, hi) == [lo |-> lo, hi |-> hi, cat |-> "", neg |-> FALSE]
Single(c) == [k |-> "set", neg |-> FALSE, items |-> <<Range(c, c)>>]

NormalChar(c) == In(c, 0, 39) \/ c = 44 \/ c = 45 \/ In(c, 47, 62) \/ In(c, 64, 90) \/ In(c, 94, 122) \/ In(c, 126, 55295) \/ In(c, 57344, 1114111)
CCPlain(c) == In(c, 0, 44) \/ In(c, 46, 90) \/ In(c, 94, 55295) \/ In(c, 57344, 1114111)

\* SingleCharEsc: the character, or -1
EscChar(x) ==
  CASE In(x, 40, 43) \/ x = 45 \/ x = 46 \/ x = 63 \/ In(x, 91, 94) \/ In(x, 123, 125) -> x
    [] x = 110 -> 10 [] x = 114 -> 13 [] x = 116 -> 9 [] OTHER -> -1

\* the general categories, "" for none
CatName(a, b) ==
  CASE a = 76 -> (CASE b = 125 -> "L" [] b = 108 -> "Ll" [] b = 109 -> "Lm" [] b = 111 -> "Lo" [] b = 116 -> "Lt" [] b = 117 -> "Lu" [] OTHER -> "")
    [] a = 77 -> (CASE b = 125 -> "M" [] b = 99 -> "Mc" [] b = 101 -> "Me" [] b = 110 -> "Mn" [] OTHER -> "")
    [] a = 78 -> (CASE b = 125 -> "N" [] b = 100 -> "Nd" [] b = 108 -> "Nl" [] b = 111 -> "No" [] OTHER -> "")
    [] a = 80 -> (CASE b = 125 -> "P" [] b = 99 -> "Pc" [] b = 100 -> "Pd" [] b = 101 -> "Pe" [] b = 102 -> "Pf" [] b = 105 -> "Pi" [] b = 111 -> "Po" [] b = 115 -> "Ps" [] OTHER -> "")
    [] a = 90 -> (CASE b = 125 -> "Z" [] b = 108 -> "Zl" [] b = 112 -> "Zp" [] b = 115 -> "Zs" [] OTHER -> "")
    [] a = 83 -> (CASE b = 125 -> "S" [] b = 99 -> "Sc" [] b = 107 -> "Sk" [] b = 109 -> "Sm" [] b = 111 -> "So" [] OTHER -> "")
    [] a = 67 -> (CASE b = 125 -> "C" [] b = 99 -> "Cc" [] b = 102 -> "Cf" [] b = 110 -> "Cn" [] b = 111 -> "Co" [] OTHER -> "")
    [] OTHER -> ""

\* The category of the characters that the checks use as subjects.
CatOf(c) ==
  CASE In(c, 97, 122) -> "Ll" [] In(c, 65, 90) -> "Lu" [] In(c, 48, 57) -> "Nd"
    [] c \in {233, 223, 228} -> "Ll"
    [] c = 201 -> "Lu" [] c = 453 -> "Lt" [] c = 688 -> "Lm" [] c \in {1488, 12354, 26085} -> "Lo"
    [] c = 769 -> "Mn" [] c = 8413 -> "Me" [] c = 2307 -> "Mc"
    [] c = 1633 -> "Nd" [] c = 8544 -> "Nl" [] c \in {189, 178} -> "No"
    [] c = 95 -> "Pc" [] c = 45 -> "Pd" [] c \in {41, 93, 125} -> "Pe" [] c \in {40, 91, 123} -> "Ps"
    [] c = 187 -> "Pf" [] c = 171 -> "Pi"
    [] c \in {33, 34, 35, 37, 38, 39, 42, 44, 46, 47, 58, 59, 63, 64, 92} -> "Po"
    [] c = 8232 -> "Zl" [] c = 8233 -> "Zp" [] c \in {32, 160, 12288} -> "Zs"
    [] c \in {36, 8364} -> "Sc" [] c \in {94, 96} -> "Sk" [] c \in {43, 60, 61, 62, 124, 126, 8704} -> "Sm" [] c \in {128512, 9786} -> "So"
    [] c < 32 \/ In(c, 127, 159) -> "Cc" [] c \in {173, 8203, 65279} -> "Cf" [] c = 57344 -> "Co" [] c \in {888, 65535} -> "Cn"
    [] OTHER -> "?"
\* a category "L" contains "Ll"; names compared by their first character
Family(n) ==
  CASE n \in {"Ll", "Lm", "Lo", "Lt", "Lu"} -> "L" [] n \in {"Mc", "Me", "Mn"} -> "M" [] n \in {"Nd", "Nl", "No"} -> "N"
    [] n \in {"Pc", "Pd", "Pe", "Pf", "Pi", "Po", "Ps"} -> "P" [] n \in {"Zl", "Zp", "Zs"} -> "Z"
    [] n \in {"Sc", "Sk", "Sm", "So"} -> "S" [] n \in {"Cc", "Cf", "Cn", "Co"} -> "C" [] OTHER -> "?"
InCat(c, n) == CatOf(c) = n \/ Family(CatOf(c)) = n

\* \p{..} or \P{..} at i: [ok, i, item]
PCat(s, i) ==
  IF RAt(s, i) = 92 /\ RAt(s, i + 1) \in {112, 80} /\ RAt(s, i + 2) = 123
  THEN LET n == CatName(RAt(s, i + 3), RAt(s, i + 4))
           end == IF RAt(s, i + 4) = 125 THEN i + 5 ELSE IF RAt(s, i + 5) = 125 THEN i + 6 ELSE 0
       IN IF n = "" \/ end = 0 THEN RNo
          ELSE RYes(end, [lo |-> 0, hi |-> -1, cat |-> n, neg |-> RAt(s, i + 1) = 80])
  ELSE RNo

\* CCchar at i: [ok, i, v] with v a character
PCCchar(s, i) ==
  IF RAt(s, i) = 92 THEN IF EscChar(RAt(s, i + 1)) >= 0 THEN RYes(i + 2, EscChar(RAt(s, i + 1))) ELSE RNo
  ELSE IF CCPlain(RAt(s, i)) THEN RYes(i + 1, RAt(s, i)) ELSE RNo

PCCE1(s, i) ==
  LET c == PCat(s, i)
      a == PCCchar(s, i)
      b == IF a.ok /\ RAt(s, a.i) = 45 THEN PCCchar(s, a.i + 1) ELSE RNo IN
  IF c.ok THEN c
  ELSE IF ~a.ok THEN RNo
  ELSE IF b.ok THEN RYes(b.i, Range(a.v, b.v)) ELSE RYes(a.i, Range(a.v, a.v))

RECURSIVE PItems(_, _, _)
\* *CCE1 [ "-" ] "]"
PItems(s, i, acc) ==
  CASE RAt(s, i) = 93 -> IF acc = <<>> THEN RNo ELSE RYes(i + 1, acc)
    [] RAt(s, i) = 45 -> IF RAt(s, i + 1) = 93 THEN RYes(i + 2, Append(acc, Range(45, 45)))
                         ELSE IF acc = <<>> THEN PItems(s, i + 1, <<Range(45, 45)>>) ELSE RNo
    [] OTHER -> LET r == PCCE1(s, i) IN IF r.ok THEN PItems(s, r.i, Append(acc, r.v)) ELSE RNo

PClass(s, i) ==
  LET neg == RAt(s, i + 1) = 94
      r == PItems(s, IF neg THEN i + 2 ELSE i + 1, <<>>) IN
  IF r.ok THEN RYes(r.i, [k |-> "set", neg |-> neg, items |-> r.v]) ELSE RNo

RECURSIVE PDig(_, _, _)
PDig(s, i, acc) == IF In(RAt(s, i), 48, 57) THEN PDig(s, i + 1, IF acc > 1000 THEN acc ELSE acc * 10 + s[i] - 48) ELSE [i |-> i, n |-> acc]

\* quantifier at i: [ok, i, v] with v = <<lo, hi>>; ok with v = <<>> when there is none
PQuant(s, i) ==
  CASE RAt(s, i) = 42 -> RYes(i + 1, <<0, -1>>)
    [] RAt(s, i) = 43 -> RYes(i + 1, <<1, -1>>)
    [] RAt(s, i) = 63 -> RYes(i + 1, <<0, 1>>)
    [] RAt(s, i) = 123 ->
         LET a == PDig(s, i + 1, 0)
             b == PDig(s, a.i + 1, 0) IN
         CASE a.i = i + 1 -> RNo
           [] RAt(s, a.i) = 125 -> RYes(a.i + 1, <<a.n, a.n>>)
           [] RAt(s, a.i) = 44 /\ RAt(s, b.i) = 125 -> RYes(b.i + 1, <<a.n, IF b.i = a.i + 1 THEN -1 ELSE b.n>>)
           [] OTHER -> RNo
    [] OTHER -> RYes(i, <<>>)

RECURSIVE PRegex(_, _), PBranches(_, _, _), PPieces(_, _, _), PAtom(_, _)
PRegex(s, i) == PBranches(s, i, <<>>)
PBranches(s, i, acc) ==
  LET b == PPieces(s, i, <<>>) IN
  IF ~b.ok THEN RNo
  ELSE LET xs == Append(acc, [k |-> "cat", xs |-> b.v]) IN
       IF RAt(s, b.i) = 124 THEN PBranches(s, b.i + 1, xs) ELSE RYes(b.i, [k |-> "alt", xs |-> xs])
PPieces(s, i, acc) ==
  IF RAt(s, i) \in {-1, 124, 41} THEN RYes(i, acc)
  ELSE LET a == PAtom(s, i)
           q == IF a.ok THEN PQuant(s, a.i) ELSE RNo IN
       IF ~q.ok THEN RNo
       ELSE PPieces(s, q.i, Append(acc, IF q.v = <<>> THEN a.v ELSE [k |-> "rep", x |-> a.v, lo |-> q.v[1], hi |-> q.v[2]]))
PAtom(s, i) ==
  LET c == RAt(s, i) IN
  CASE c = 40 -> LET r == PRegex(s, i + 1) IN IF r.ok /\ RAt(s, r.i) = 41 THEN RYes(r.i + 1, r.v) ELSE RNo
    [] c = 46 -> RYes(i + 1, [k |-> "set", neg |-> TRUE, items |-> <<Range(10, 10), Range(13, 13)>>])
    [] c = 91 -> PClass(s, i)
    [] c = 92 -> LET p == PCat(s, i) IN
                 IF p.ok THEN RYes(p.i, [k |-> "set", neg |-> FALSE, items |-> <<p.v>>])
                 ELSE IF EscChar(RAt(s, i + 1)) >= 0 THEN RYes(i + 2, Single(EscChar(RAt(s, i + 1)))) ELSE RNo
    [] NormalChar(c) -> RYes(i + 1, Single(c))
    [] OTHER -> RNo

\* whole pattern: [ok, v]
Pattern(s) ==
  LET r == PRegex(s, 1) IN IF r.ok /\ r.i = Len(s) + 1 THEN [ok |-> TRUE, v |-> r.v] ELSE [ok |-> FALSE, v |-> <<>>]

\* --- the language --------------------------------------------------------------
InItem(it, c) == IF it.cat = "" THEN In(c, it.lo, it.hi) ELSE InCat(c, it.cat) # it.neg
InSet(x, c) == (\E j \in DOMAIN x.items : InItem(x.items[j], c)) # x.neg

RECURSIVE Ends(_, _, _), EndsCat(_, _, _, _), EndsRep(_, _, _, _, _), Closure(_, _, _, _)
Ends(x, s, I) ==
  CASE I = {} -> {}
    [] x.k = "set" -> {i + 1 : i \in {j \in I : j <= Len(s) /\ InSet(x, s[j])}}
    [] x.k = "cat" -> EndsCat(x.xs, 1, s, I)
    [] x.k = "alt" -> UNION {Ends(x.xs[j], s, I) : j \in DOMAIN x.xs}
    [] x.k = "rep" -> EndsRep(x.x, x.lo, x.hi, s, I)
EndsCat(xs, j, s, I) == IF j > Len(xs) THEN I ELSE EndsCat(xs, j + 1, s, Ends(xs[j], s, I))
EndsRep(x, lo, hi, s, I) ==
  IF I = {} THEN {}
  ELSE IF lo > 0 THEN EndsRep(x, lo - 1, IF hi < 0 THEN hi ELSE hi - 1, s, Ends(x, s, I))
  ELSE IF hi < 0 THEN Closure(x, s, I, I)
  ELSE IF hi = 0 THEN I
  ELSE I \cup EndsRep(x, 0, hi - 1, s, Ends(x, s, I))
Closure(x, s, new, all) ==
  LET n == Ends(x, s, new) \ all IN IF n = {} THEN all ELSE Closure(x, s, n, all \cup n)

FullMatch(s, p) == LET r == Pattern(p) IN r.ok /\ (Len(s) + 1) \in Ends(r.v, s, {1})
FindMatch(s, p) == LET r == Pattern(p) IN r.ok /\ Ends(r.v, s, 1..(Len(s) + 1)) # {}
=============================================================================
