-------------------------- MODULE SlicesUnbounded --------------------------
(***************************************************************************)
(* The slice loop of SliceMachine for every length, start, end and step:   *)
(* an inductive invariant, checked with Apalache (no bound on any of the   *)
(* integers).  Three runs:                                                 *)
(*   Init => Inv;  Inv /\ Next => Inv';  Inv => Safe                       *)
(* Safe: the loop stays in the array, moves strictly in one direction and  *)
(* by the step (so it ends and never repeats an element), and when it has  *)
(* ended the number n of elements is SliceRun's: with p = n * |step|,      *)
(* n = 1 + (span - 1) div |step| is p - |step| <= span - 1 < p.            *)
(* Absurd bounds: Clamped says that cutting start, end and step at any     *)
(* magnitude no smaller than the array keeps the selection, which is what  *)
(* Num!ToInt does (TLC has 32 bit integers).                               *)
(***************************************************************************)
EXTENDS Slices

VARIABLES
  \* @type: Int;
  len,
  \* @type: Int;
  start,
  \* @type: Int;
  end,
  \* @type: Int;
  step,
  \* @type: Int;
  i,
  \* @type: Int;
  n,
  \* @type: Int;
  p,
  \* @type: Int;
  last,
  \* @type: Bool;
  done,
  \* @type: Int;
  cut

B == Bounds(start, end, step, len)
Size == IF step < 0 THEN 0 - step ELSE step
Span == Max(B.upper - B.lower, 0)
First == IF step > 0 THEN B.lower ELSE B.upper

Init ==
  /\ len \in Nat /\ start \in Int /\ end \in Int /\ step \in Int /\ cut \in Nat
  /\ i = First /\ n = 0 /\ p = 0 /\ last = First /\ done = FALSE
More == (step > 0 /\ i < B.upper) \/ (step < 0 /\ B.lower < i)
Next ==
  /\ ~done
  /\ IF More THEN i' = i + step /\ n' = n + 1 /\ p' = p + Size /\ last' = i /\ done' = FALSE
     ELSE done' = TRUE /\ UNCHANGED <<i, n, p, last>>
  /\ UNCHANGED <<len, start, end, step, cut>>

Inv ==
  /\ len >= 0 /\ cut >= 0 /\ n >= 0 /\ p >= 0
  /\ (n = 0 <=> p = 0)
  /\ i = (IF step > 0 THEN First + p ELSE IF step < 0 THEN First - p ELSE First)
  /\ n > 0 => /\ step # 0 /\ p >= Size /\ p - Size < Span
              /\ i = last + step
  /\ done => (step = 0 /\ n = 0) \/ p >= Span
IndInit ==
  /\ len \in Int /\ start \in Int /\ end \in Int /\ step \in Int /\ cut \in Int
  /\ i \in Int /\ n \in Int /\ p \in Int /\ last \in Int /\ done \in BOOLEAN
  /\ Inv

\* an element is taken only inside the array, and each after the one before
Safe ==
  /\ More => 0 <= i /\ i < len
  /\ n > 0 => 0 <= last /\ last < len /\ 0 <= B.upper - B.lower /\ B.upper - B.lower <= len
  /\ (More /\ n > 0) => (IF step > 0 THEN last < i ELSE i < last) /\ i - last = step
  /\ (done /\ n > 0) => p - Size <= Span - 1 /\ Span - 1 < p
  /\ (done /\ n = 0) => step = 0 \/ Span = 0

\* cutting a number at +-c, for any c that is at least the length
Cut(x, c) == IF x > c THEN c ELSE IF x < 0 - c THEN 0 - c ELSE x
Clamped ==
  cut > len =>
    /\ Bounds(Cut(start, cut), Cut(end, cut), step, len) = B
    /\ (step > cut \/ step < 0 - cut) =>
         \* only the first element, if there is one, whatever the step
         (IF step > 0 THEN First + cut >= B.upper ELSE First - cut <= B.lower)
\* elements come in the order of the definition with omitted bounds
Whole == (start = 0 /\ end = len /\ step = 1) => Span = len /\ First = 0
Reversed == (start = len - 1 /\ end = 0 - len - 1 /\ step = -1) => Span = len /\ First = len - 1
Facts == Safe /\ Clamped /\ Whole /\ Reversed
=============================================================================
