--------------------------- MODULE TraceVariants ---------------------------
(***************************************************************************)
(* Different texts that denote the same query print identically.  A line   *)
(* has texts qs and, per group of parsers w that behaved alike, the        *)
(* printed forms d (<<>> when rejected).  Whether two texts denote the     *)
(* same query is decided here, from their trees with the grouping of       *)
(* chains kept.                                                            *)
(***************************************************************************)
EXTENDS Syntax, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NCH == 32
VARIABLES ch, pos

RECURSIVE Bare(_), BareQ(_), BareSel(_)
Bare(x) ==
  CASE x.k = "paren" -> Bare(x.x)
    [] x.k \in {"or", "and"} -> [k |-> x.k, xs |-> [j \in DOMAIN x.xs |-> Bare(x.xs[j])]]
    [] x.k = "not" -> [k |-> "not", x |-> Bare(x.x)]
    [] x.k = "cmp" -> [k |-> "cmp", op |-> x.op, l |-> Bare(x.l), r |-> Bare(x.r)]
    [] x.k \in {"rel", "abs"} -> [k |-> x.k, q |-> BareQ(x.q)]
    [] x.k = "fn" -> [k |-> "fn", fname |-> x.fname, args |-> [j \in DOMAIN x.args |-> Bare(x.args[j])]]
    [] OTHER -> x
BareSel(x) ==
  CASE x.k = "filter" -> [k |-> "filter", x |-> Bare(x.x)]
    [] x.k = "sq" -> [k |-> "sq", q |-> BareQ(x.q)]
    \* an absent step is the step 1 in no printed form: both spellings are kept apart
    [] OTHER -> x
BareQ(q) == [j \in DOMAIN q |-> [k |-> q[j].k, sels |-> [h \in DOMAIN q[j].sels |-> BareSel(q[j].sels[h])]]]

Check(r) ==
  LET t == [i \in DOMAIN r.qs |-> LET j == Judge(r.qs[i], Ext) IN IF j.wf /\ j.faults = {} THEN <<BareQ(j.v)>> ELSE <<>>] IN
  UNION {LET o == r.obs[k] IN
         {[p |-> "C06", w |-> o.w, i |-> i, j |-> j] :
           <<i, j>> \in {ij \in (DOMAIN r.qs) \X (DOMAIN r.qs) :
              /\ ij[1] < ij[2] /\ t[ij[1]] # <<>> /\ t[ij[1]] = t[ij[2]]
              /\ o.d[ij[1]] # <<>> /\ o.d[ij[2]] # <<>>
              /\ o.d[ij[1]] # o.d[ij[2]]}}
         : k \in DOMAIN r.obs}

Report(r) ==
  LET bad == Check(r) IN
  IF bad = {} THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([id |-> r.id, bad |-> bad]))

Init == ch \in 1..NCH /\ pos = 0
Next == /\ pos * NCH + ch <= Len(Trace)
        /\ Report(Trace[pos * NCH + ch])
        /\ pos' = pos + 1
        /\ ch' = ch
Spec == Init /\ [][Next]_<<ch, pos>>
=============================================================================
