----------------------------- MODULE TraceAbnf -----------------------------
(***************************************************************************)
(* Agreement of recogniser and grammar on given texts: records [lang, q].  *)
(***************************************************************************)
EXTENDS Agreement, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NCH == 32
VARIABLES ch, pos
Report(r) == IF AgreeOn(r.lang, r.q) THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([id |-> r.id, bad |-> <<>>]))
Init == ch \in 1..NCH /\ pos = 0
Next == /\ pos * NCH + ch <= Len(Trace)
        /\ Report(Trace[pos * NCH + ch])
        /\ pos' = pos + 1
        /\ ch' = ch
Spec == Init /\ [][Next]_<<ch, pos>>
=============================================================================
