---------------------------- MODULE CompareLaws ----------------------------
(***************************************************************************)
(* The laws of the comparison relation of RFC 9535 section 2.3.5.2.2 over  *)
(* a pool of values (the nodes of a document, and the absent value), for   *)
(* every pair and every triple.  The pool is the one that is replayed in   *)
(* the code.                                                               *)
(***************************************************************************)
EXTENDS Eval, TLC, Json, IOUtils

D == ndJsonDeserialize(IOEnv.TRACE)[1].doc
V == [i \in 0..Len(D) |-> IF i = 0 THEN None ELSE ValOf(D, i)]
I == DOMAIN V

VARIABLES x, y, z
vars == <<x, y, z>>
Init == x \in I /\ y = -1 /\ z = -1
Next == \/ y = -1 /\ y' \in I /\ UNCHANGED <<x, z>>
        \/ y # -1 /\ z = -1 /\ z' \in I /\ UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_vars

C(op, a, b) == Compare(D, op, V[a], V[b])
Kind(a) == IF V[a].t = "ref" THEN D[V[a].id].t ELSE V[a].t

One_ == C("==", x, x) /\ C("<=", x, x) /\ C(">=", x, x) /\ ~C("!=", x, x) /\ ~C("<", x, x) /\ ~C(">", x, x)
Pair == y = -1 \/
  /\ C("==", x, y) = C("==", y, x)
  /\ C("!=", x, y) = ~C("==", x, y)
  /\ C("<=", x, y) = (C("<", x, y) \/ C("==", x, y))
  /\ C(">=", x, y) = (C(">", x, y) \/ C("==", x, y))
  /\ C("<", x, y) = C(">", y, x)
  /\ C("<=", x, y) = C(">=", y, x)
  /\ ~(C("<", x, y) /\ C("<", y, x))
  /\ ~(C("<", x, y) /\ C("==", x, y))
  /\ (C("==", x, y) => Kind(x) = Kind(y))
  /\ (C("<", x, y) => Kind(x) = Kind(y) /\ Kind(x) \in {"n", "s"})
  /\ (Kind(x) = Kind(y) /\ Kind(x) \in {"n", "s"} => C("<", x, y) \/ C("==", x, y) \/ C("<", y, x))
Triple == z = -1 \/
  /\ (C("==", x, y) /\ C("==", y, z) => C("==", x, z))
  /\ (C("<", x, y) /\ C("<", y, z) => C("<", x, z))
  /\ (C("<", x, y) /\ C("==", y, z) => C("<", x, z))
=============================================================================
