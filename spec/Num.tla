-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact decimal numbers.  A number is a record [n, d, e]: n = 1 when      *)
(* negative, d a sequence of digits without leading or trailing zero, e a  *)
(* power of ten; its value is (-1)^n * d * 10^e.  Zero is [0, <<>>, 0].    *)
(* Normal forms are unique, so equality of numbers is equality of records. *)
(***************************************************************************)
EXTENDS Integers, Sequences

Zero == [n |-> 0, d |-> <<>>, e |-> 0]

RECURSIVE StripLead(_), StripTrail(_, _)
StripLead(d) == IF d # <<>> /\ d[1] = 0 THEN StripLead(Tail(d)) ELSE d
StripTrail(d, e) ==
  IF d # <<>> /\ d[Len(d)] = 0 THEN StripTrail(SubSeq(d, 1, Len(d) - 1), e + 1)
  ELSE <<d, e>>

Norm(n, d, e) ==
  LET t == StripTrail(StripLead(d), e) IN
  IF t[1] = <<>> THEN Zero ELSE [n |-> n, d |-> t[1], e |-> t[2]]

\* Is |a| < |b| ?  (both normal, non zero): compare the place of the first
\* digit, then digit by digit.
RECURSIVE DigLt(_, _, _)
DigLt(x, y, i) ==
  IF i > Len(y) THEN FALSE
  ELSE IF i > Len(x) THEN TRUE
  ELSE IF x[i] # y[i] THEN x[i] < y[i]
  ELSE DigLt(x, y, i + 1)

MagLt(a, b) ==
  LET pa == Len(a.d) + a.e  pb == Len(b.d) + b.e IN
  IF pa # pb THEN pa < pb ELSE DigLt(a.d, b.d, 1)

NumLt(a, b) ==
  CASE a = b -> FALSE
    [] a.d = <<>> -> b.n = 0
    [] b.d = <<>> -> a.n = 1
    [] a.n # b.n -> a.n = 1
    [] a.n = 0 -> MagLt(a, b)
    [] OTHER -> MagLt(b, a)

NumLe(a, b) == a = b \/ NumLt(a, b)

RECURSIVE DigitsOf(_, _)
DigitsOf(k, acc) == IF k = 0 THEN acc ELSE DigitsOf(k \div 10, <<k % 10>> \o acc)
FromInt(k) == IF k < 0 THEN Norm(1, DigitsOf(0 - k, <<>>), 0) ELSE Norm(0, DigitsOf(k, <<>>), 0)

\* TLC integers have 32 bits.  An index is used only relative to array lengths
\* far below Big, so integers beyond it are clamped.
Big == 100000000
RECURSIVE IntAcc(_, _, _)
IntAcc(d, i, acc) == IF i > Len(d) THEN acc ELSE IntAcc(d, i + 1, acc * 10 + d[i])
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
ToInt(m) ==
  IF m.d = <<>> THEN 0
  ELSE LET v == IF Len(m.d) + m.e > 8 THEN Big ELSE IntAcc(m.d, 1, 0) * Pow10(m.e)
       IN IF m.n = 1 THEN 0 - v ELSE v
IsInteger(m) == m.e >= 0
=============================================================================
