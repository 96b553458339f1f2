----------------------------- MODULE TraceEval -----------------------------
(***************************************************************************)
(* Validation of recorded evaluations.  A line is one query and one        *)
(* document, and what the evaluators answered: obs is a sequence of        *)
(* [w, ok, ids, paths], w the evaluators that answered alike, ok 0 for an  *)
(* error, ids the nodes (0 for a value that is not of the document), paths *)
(* their locations (or <<>> when not recorded), x = <<[lo, hi]>> when the  *)
(* parser had another range of index integers than the standard one.  D,   *)
(* L, E and F know the standard syntax, G the extended one; ext: custom    *)
(* functions registered.                                                   *)
(***************************************************************************)
EXTENDS Eval, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NCH == 32
VARIABLES ch, pos

Has(w, c) == \E j \in DOMAIN w : w[j] = c

Against(o, r, j) ==
  LET valid == j.wf /\ j.faults = {} IN
  CASE o.ok = 1 /\ ~valid -> {[w |-> o.w, what |-> "answers an invalid query", want |-> <<>>]}
    [] o.ok = 0 /\ valid -> {[w |-> o.w, what |-> "no answer", want |-> Result(r.doc, j.v)]}
    [] o.ok = 0 -> {}
    [] OTHER ->
         LET want == Result(r.doc, j.v) IN
         IF o.ids # want THEN {[w |-> o.w, what |-> "different nodes", want |-> want]}
         ELSE IF o.paths # <<>> /\ \E k \in DOMAIN want : o.paths[k] # Path(r.doc, want[k])
              THEN {[w |-> o.w, what |-> "different paths", want |-> [k \in DOMAIN want |-> Path(r.doc, want[k])]]}
         ELSE {}

Check(r) ==
  LET m0 == [Std EXCEPT !.fns = IF r.ext THEN FnTable ELSE StdFns]
      m == IF r.x = <<>> THEN m0 ELSE [m0 EXCEPT !.lo = r.x[1].lo, !.hi = r.x[1].hi]
      j == Judge(r.q, m)
      g == IF j.wf THEN j ELSE Judge(r.q, [m EXCEPT !.ext = TRUE])
  IN UNION {Against(r.obs[k], r, IF Has(r.obs[k].w, "G") THEN g ELSE j) : k \in DOMAIN r.obs}

Report(r) ==
  LET bad == Check(r) IN
  IF bad = {} THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([id |-> r.id, bad |-> bad]))

Init == ch \in 1..NCH /\ pos = 0
Next == /\ pos * NCH + ch <= Len(Trace)
        /\ Report(Trace[pos * NCH + ch])
        /\ pos' = pos + 1
        /\ ch' = ch
Spec == Init /\ [][Next]_<<ch, pos>>
=============================================================================
