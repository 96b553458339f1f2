----------------------------- MODULE TraceIters -----------------------------
(***************************************************************************)
(* Validation of recorded schedules of lazy iterators.  The state is, for  *)
(* every slot, the node list its iterator has to hand out and how many of  *)
(* it are gone; an action takes some of them, as the adaptor of the        *)
(* standard library does, and must have given exactly those.               *)
(*                                                                         *)
(* A record is [doc, qs, slots, acts, outs, kept]: acts[j] = [a, i, k] on  *)
(* slot i, outs[j] = [ids, paths, n, lo, hi].                              *)
(***************************************************************************)
EXTENDS Eval, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NCH == 32
VARIABLES ch, pos

\* what is left of an iterator
Left(s) == SubSeq(s.list, s.gone + 1, Len(s.list))
UpTo(n, xs) == SubSeq(xs, 1, Min(n, Len(xs)))
Nth_(xs, j) == IF j <= Len(xs) THEN <<xs[j]>> ELSE <<>>

\* [ids handed out, number consumed]
Take(a, k, xs) ==
  CASE a \in {"next", "peek"} -> <<UpTo(1, xs), 1>>
    [] a \in {"nth", "skip"} -> <<Nth_(xs, k + 1), k + 1>>
    [] a = "take" -> <<UpTo(k, xs), k>>
    [] a = "for" -> <<UpTo(k, xs), k>>
    [] a = "fuse" -> <<UpTo(2, xs), 2>>
    [] a = "step" -> <<Nth_(xs, 1) \o Nth_(xs, k + 1), k + 1>>
    [] a = "rest" -> <<xs, Len(xs)>>
    [] a \in {"any", "all", "tfold"} -> <<UpTo(k + 1, xs), k + 1>>
    [] a = "find" -> <<Nth_(xs, k + 1), k + 1>>
    [] a = "pos" -> <<<<>>, k + 1>>
    [] a \in {"collect", "fold", "parts"} -> <<xs, Len(xs)>>
    [] a = "map" -> <<UpTo(k, [j \in 1..((Len(xs) + 1) \div 2) |-> xs[2 * j - 1]]), Len(xs)>>
    \* the first, moved on as far as k later ones
    [] a = "min" -> <<IF xs = <<>> THEN <<>> ELSE <<xs[Min(k + 1, Len(xs))]>>, Len(xs)>>
    [] a \in {"count", "sum"} -> <<<<>>, Len(xs)>>
    [] a \in {"last", "end", "max"} -> <<IF xs = <<>> THEN <<>> ELSE <<xs[Len(xs)]>>, Len(xs)>>
    [] OTHER -> <<<<>>, 0>>

RECURSIVE Walk(_, _, _)
\* the first action whose outcome differs, 0 if none
Walk(r, j, slots) ==
  IF j > Len(r.acts) THEN 0
  ELSE LET a == r.acts[j] o == r.outs[j] IN
       IF a.a = "new"
       THEN Walk(r, j + 1, [slots EXCEPT ![a.i] = [list |-> Result(r.doc, Judge(r.qs[a.k], Std).v), gone |-> 0]])
       ELSE IF a.a = "drop" THEN Walk(r, j + 1, slots)
       ELSE LET xs == Left(slots[a.i]) t == Take(a.a, a.k, xs) IN
            IF /\ o.ids = t[1]
               /\ o.paths = [h \in DOMAIN t[1] |-> Path(r.doc, t[1][h])]
               /\ a.a \in {"count", "sum"} => o.n = Len(xs)
               /\ a.a = "pos" => o.n = (IF a.k < Len(xs) THEN a.k ELSE -1)
               /\ a.a \in {"any", "tfold"} => o.n = (IF a.k < Len(xs) THEN 1 ELSE 0)
               /\ a.a = "all" => o.n = (IF a.k < Len(xs) THEN 0 ELSE 1)
               /\ a.a = "hint" => o.lo <= Len(xs) /\ (o.hi < 0 \/ o.hi >= Len(xs))
            THEN Walk(r, j + 1, [slots EXCEPT ![a.i].gone = Min(@ + t[2], Len(slots[a.i].list))])
            ELSE j

Report(r) ==
  LET j == Walk(r, 1, [i \in 1..r.slots |-> [list |-> <<>>, gone |-> 0]]) IN
  IF j = 0 /\ r.kept THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([id |-> r.id, bad |-> [at |-> j]]))

Init == ch \in 1..NCH /\ pos = 0
Next == /\ pos * NCH + ch <= Len(Trace)
        /\ Report(Trace[pos * NCH + ch])
        /\ pos' = pos + 1
        /\ ch' = ch
Spec == Init /\ [][Next]_<<ch, pos>>
=============================================================================
