---------------------------- MODULE SliceMachine ----------------------------
(***************************************************************************)
(* The slice algorithm of RFC 9535 section 2.3.4.2.2 as a loop, one        *)
(* selected element per step, for every length up to MaxLen and every      *)
(* start, end and step in -R..R or absent.                                 *)
(***************************************************************************)
EXTENDS Eval, TLC, Json, IOUtils, FiniteSets

MaxLen == atoi(IOEnv.MAXLEN)
R == atoi(IOEnv.RADIUS)
Opt == {<<>>} \cup {<<i>> : i \in -R..R}

VARIABLES len, a, b, c, i, out, done
vars == <<len, a, b, c, i, out, done>>

Step == IF c = <<>> THEN 1 ELSE c[1]
Start == IF a # <<>> THEN a[1] ELSE IF Step >= 0 THEN 0 ELSE len - 1
End == IF b # <<>> THEN b[1] ELSE IF Step >= 0 THEN len ELSE 0 - len - 1
B == Bounds(Start, End, Step, len)

Init ==
  /\ len \in 0..MaxLen /\ a \in Opt /\ b \in Opt /\ c \in Opt
  /\ i = (IF Step > 0 THEN B.lower ELSE B.upper)
  /\ out = <<>> /\ done = FALSE
Next ==
  /\ ~done
  /\ IF (Step > 0 /\ i < B.upper) \/ (Step < 0 /\ B.lower < i)
     THEN out' = Append(out, i) /\ i' = i + Step /\ done' = FALSE
     ELSE done' = TRUE /\ UNCHANGED <<i, out>> /\ PrintT("SLICE " \o ToJson([len |-> len, a |-> a, b |-> b, c |-> c]))
  /\ UNCHANGED <<len, a, b, c>>
Spec == Init /\ [][Next]_vars

\* the loop never leaves the array, never repeats an element
InArray == \A j \in DOMAIN out : out[j] >= 0 /\ out[j] < len
Distinct == Cardinality({out[j] : j \in DOMAIN out}) = Len(out)
Ordered == \A j \in 1..(Len(out) - 1) : out[j + 1] = out[j] + Step
\* a membership definition without loops
Wanted(k) ==
  LET lo == NormIx(Start, len) hi == NormIx(End, len) IN
  IF Step > 0
  THEN LET f == IF lo < 0 THEN 0 ELSE lo IN k >= f /\ k < hi /\ (k - f) % Step = 0
  ELSE IF Step < 0
  THEN LET f == IF lo >= len THEN len - 1 ELSE lo IN k <= f /\ k > hi /\ (f - k) % (0 - Step) = 0
  ELSE FALSE
Complete == done => /\ {out[j] : j \in DOMAIN out} = {k \in 0..(len - 1) : Wanted(k)}
                    /\ out = SliceIx(a, b, c, len)
\* and in closed form
Regular == done => LET s == SliceRun(a, b, c, len) IN out = [j \in 1..s.count |-> s.first + (j - 1) * s.step]
=============================================================================
