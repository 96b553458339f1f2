------------------------------- MODULE Slices -------------------------------
(***************************************************************************)
(* The bounds of a slice, RFC 9535 2.3.4.2.2.  In a module of its own so   *)
(* that the evaluation (Eval, checked with TLC on given arrays) and the    *)
(* proof for arrays and slices of any size (SlicesUnbounded, checked with  *)
(* Apalache) speak of the same definition.                                 *)
(***************************************************************************)
EXTENDS Integers

\* @type: (Int, Int) => Int;
NormIx(i, len) == IF i >= 0 THEN i ELSE len + i
\* @type: (Int, Int) => Int;
Min(a, b) == IF a < b THEN a ELSE b
\* @type: (Int, Int) => Int;
Max(a, b) == IF a > b THEN a ELSE b
\* @type: (Int, Int, Int, Int) => {lower: Int, upper: Int};
Bounds(start, end, step, len) ==
  LET ns == NormIx(start, len) ne == NormIx(end, len) IN
  IF step >= 0 THEN [lower |-> Min(Max(ns, 0), len), upper |-> Min(Max(ne, 0), len)]
  ELSE [upper |-> Min(Max(ns, -1), len - 1), lower |-> Min(Max(ne, -1), len - 1)]
=============================================================================
