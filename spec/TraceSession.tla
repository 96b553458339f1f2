---------------------------- MODULE TraceSession ----------------------------
(***************************************************************************)
(* Validation of recorded sessions.  A line is [docs, ops, obs], obs a     *)
(* sequence of [w, outs]: what the library answered (w: the crates that    *)
(* answered alike), one answer for every operation.  A mismatch carries    *)
(* the operations that the answer needs, so that a new process can be      *)
(* asked as well.                                                          *)
(***************************************************************************)
EXTENDS Session, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NCH == 32
VARIABLES ch, pos

Has(w, c) == \E j \in DOMAIN w : w[j] = c

Wrong(a, o) ==
  CASE a.k = "silent" -> ""
    [] a.k = "query" -> IF o.ok # 1 THEN "rejects a query"
                        ELSE IF o.ast # <<>> /\ o.ast[1] # a.tree THEN "another tree"
                        ELSE IF o.sing # a.sing THEN "is_singular" ELSE ""
    [] a.k = "error" -> IF o.ok # 0 THEN "accepts a text" ELSE IF o.kind \notin a.kinds THEN "another kind of error" ELSE ""
    [] a.k = "nothing" -> IF o.ok \in {0, 2} THEN "" ELSE "answers without a query"
    [] a.k = "nodes" -> IF o.ok = 2 THEN "" ELSE IF o.ok # 1 THEN "no answer" ELSE IF o.ids # a.ids THEN "other nodes" ELSE ""

Against(r, obs) ==
  LET answers == Run(Start(Has(obs.w, "G")), r.ops, r.docs, <<>>)
      bad == {i \in DOMAIN r.ops : Wrong(answers[i], obs.outs[i]) # ""} IN
  {[w |-> obs.w, at |-> i, what |-> Wrong(answers[i], obs.outs[i]), needs |-> NeededAt(r.ops, answers, i)] : i \in bad}

Check(r) == UNION {Against(r, r.obs[k]) : k \in DOMAIN r.obs}

Report(r) ==
  LET bad == Check(r) IN
  IF bad = {} THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([id |-> r.id, bad |-> bad]))

Init == ch \in 1..NCH /\ pos = 0
Next == /\ pos * NCH + ch <= Len(Trace)
        /\ Report(Trace[pos * NCH + ch])
        /\ pos' = pos + 1
        /\ ch' = ch
Spec == Init /\ [][Next]_<<ch, pos>>
=============================================================================
