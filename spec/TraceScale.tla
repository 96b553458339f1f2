----------------------------- MODULE TraceScale -----------------------------
(***************************************************************************)
(* Validation of recorded calls on large or odd inputs.  A line is either  *)
(*   k = "scale": family fam at size n by one parser or evaluator w, and   *)
(*     its outcome ok (1 a query, 0 an error), count, stable, sing, and    *)
(*     where the nodes were looked up (ids.seen) whether their ids are a   *)
(*     progression and which; locs are ids and paths of some of the nodes; *)
(*   k = "slice": the nodes of $[a:b:c] on an array of n elements, as such *)
(*     a progression of positions; or                                      *)
(*   k = "call": the outcome of some other call, which may only be "query" *)
(*     or "error"                                                          *)
(* and in both cases died = "" or how the call ended instead.              *)
(***************************************************************************)
EXTENDS Growing

Trace == ndJsonDeserialize(IOEnv.TRACE)
NCH == 32
VARIABLES ch, pos

\* "I": the iterators of crate E, two in turns
Evaluators == {"D", "L", "E", "I", "F", "G"}

\* the recorded progression g of cnt ids is first, first + step, ...
Runs(g, cnt, first, step) == (cnt = 0) \/ (g.same /\ (g.first = first) /\ ((cnt = 1) \/ (g.step = step)))

Check(r) ==
  IF r.died # "" THEN {[what |-> r.died]}
  ELSE IF r.k = "slice" THEN
    LET s == SliceRun(r.a, r.b, r.c, r.n) IN
    IF r.ok # 1 THEN {[what |-> "refused"]}
    ELSE (IF r.count # s.count THEN {[what |-> "number of nodes"]} ELSE {})
         \cup (IF r.count = s.count /\ ~Runs(r.ids, s.count, s.first + 2, s.step) THEN {[what |-> "which nodes"]} ELSE {})
  ELSE IF r.k = "call" THEN IF r.out \in {"query", "error"} THEN {} ELSE {[what |-> "neither a query nor an error"]}
  ELSE LET f == Families[r.fam]
           ok == IF r.w = "G" THEN f.gok ELSE f.ok IN
       IF r.ok # ok THEN {[what |-> IF ok = 1 THEN "refused" ELSE "accepted"]}
       ELSE (IF r.stable THEN {} ELSE {[what |-> IF ok = 1 THEN "printed form does not parse back" ELSE "error without a text"]})
            \cup (IF ok = 1 /\ r.sing # f.sing THEN {[what |-> "classification"]} ELSE {})
            \cup (IF ok = 1 /\ r.w \in Evaluators /\ r.count # Count(f, r.n) THEN {[what |-> "number of nodes"]} ELSE {})
            \cup (IF ok = 1 /\ r.w \in Evaluators /\ r.ids.seen /\ f.prog # <<>> /\ ~Runs(r.ids, r.count, f.prog[1] + f.prog[2] * r.n, f.prog[3])
                  THEN {[what |-> "which nodes"]} ELSE {})
            \cup (IF ok = 1 /\ f.doc \in Located /\ \E k \in DOMAIN r.locs : r.locs[k].id = 0 \/ r.locs[k].path # PathOf(f, r.n, r.locs[k].id)
                  THEN {[what |-> "location"]} ELSE {})

Report(r) ==
  LET bad == Check(r) IN
  IF bad = {} THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([id |-> r.id, bad |-> bad]))

Init == ch \in 1..NCH /\ pos = 0
Next == /\ pos * NCH + ch <= Len(Trace)
        /\ Report(Trace[pos * NCH + ch])
        /\ pos' = pos + 1
        /\ ch' = ch
Spec == Init /\ [][Next]_<<ch, pos>>
=============================================================================
