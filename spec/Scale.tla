------------------------------- MODULE Scale -------------------------------
(***************************************************************************)
(* Growing inputs.  A family is a query text pre unit^n mid post^n suf and *)
(* a document of size n, with a prediction for every n from `from` on:     *)
(* accepted or not (ok; gok with the extended syntax), singular or not,    *)
(* and c0 + c1*n + c2*n*n nodes, for some families exactly the nodes whose *)
(* preorder ids are the progression prog.                                  *)
(*                                                                         *)
(* The machine grows each family step by step; Predicted compares the      *)
(* prediction with the specification proper (Judge and Result) as long as  *)
(* that can be computed.  TraceScale then holds the real code to the same  *)
(* prediction at sizes no specification evaluator could reach: a query or  *)
(* an error, the right number of nodes, a printed form that parses back,   *)
(* and an answer at all - not a panic, an overflow or an endless loop.     *)
(***************************************************************************)
EXTENDS Growing

MaxN == atoi(IOEnv.MAXN)
VARIABLES fam, n
Init == fam \in DOMAIN Families /\ n = Families[fam].from
Next == n < Families[fam].from + MaxN /\ n' = n + 1 /\ fam' = fam
Spec == Init /\ [][Next]_<<fam, n>>

Holds(f, m, ok) ==
  LET j == Judge(Text(f, n), m) IN
  /\ (j.wf /\ j.faults = {}) = (ok = 1)
  /\ ok = 1 => /\ IsSingularQ(j.v) = f.sing
               /\ LET r == Result(Doc(f, n), j.v) IN
                  /\ Len(r) = Count(f, n)
                  /\ f.prog # <<>> => r = Progression(f, n)
                  /\ f.doc \in Located => \A k \in DOMAIN r : PathOf(f, n, r[k]) = Path(Doc(f, n), r[k])
Predicted ==
  LET f == Families[fam] IN Holds(f, Std, f.ok) /\ Holds(f, [Std EXCEPT !.ext = TRUE], f.gok)
=============================================================================
