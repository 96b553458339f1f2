------------------------------ MODULE LazyIter ------------------------------
(***************************************************************************)
(* Two lazy iterators over one document, interleaved.  Each is the machine *)
(* of EvalMachine: a stack todo of pending work; Advance runs it until it  *)
(* hands out a node or has nothing left.  The environment makes iterators, *)
(* asks either for its next node, and drops it, in any order, up to DEPTH  *)
(* actions.                                                                *)
(*                                                                         *)
(* Yields: however the actions are interleaved, what an iterator has       *)
(* handed out is a prefix of its query's node list, and it answers "none"  *)
(* only when, and whenever, it has handed out all of it.                   *)
(* Schedules are printed, to be replayed in the real iterators.            *)
(***************************************************************************)
EXTENDS Eval, TLC, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)
TraceDocs == ndJsonDeserialize(IOEnv.CASES)   \* [doc, q1, q2] per line, the queries as texts

VARIABLES k, todo, on, out, ended, acts
vars == <<k, todo, on, out, ended, acts>>
d == TraceDocs[k].doc
Q(i) == Judge(IF i = 1 THEN TraceDocs[k].q1 ELSE TraceDocs[k].q2, Std).v
Its == {1, 2}

Items(ns, j, deep) == [h \in DOMAIN ns |-> <<ns[h], j, deep>>]
RECURSIVE Advance(_, _)
\* [got, todo]: the next node (0: none) and the work left
Advance(q, st) ==
  IF st = <<>> THEN [got |-> 0, todo |-> <<>>]
  ELSE LET n == st[1][1] j == st[1][2] rest == Tail(st) IN
       IF j > Len(q) THEN [got |-> n, todo |-> rest]
       ELSE Advance(q, Items(SelsOn(d, q[j].sels, 1, n, <<>>), j + 1, FALSE)
                       \o (IF q[j].k = "desc" THEN Items(Kids(d, n), j, TRUE) ELSE <<>>) \o rest)

Start == << <<1, 1, FALSE>> >>
Init == /\ k \in DOMAIN TraceDocs
        /\ on = [i \in Its |-> TRUE] /\ todo = [i \in Its |-> Start]
        /\ out = [i \in Its |-> <<>>] /\ ended = [i \in Its |-> FALSE]
        /\ acts = << [a |-> "new", i |-> 1, k |-> 1], [a |-> "new", i |-> 2, k |-> 2] >>

Ask(i) ==
  /\ on[i]
  /\ LET r == Advance(Q(i), todo[i]) IN
     /\ todo' = [todo EXCEPT ![i] = r.todo]
     /\ out' = IF r.got = 0 THEN out ELSE [out EXCEPT ![i] = Append(@, r.got)]
     /\ ended' = [ended EXCEPT ![i] = r.got = 0]
  /\ acts' = Append(acts, [a |-> "next", i |-> i, k |-> 0])
  /\ UNCHANGED on
Discard(i) ==
  /\ on[i]
  /\ on' = [on EXCEPT ![i] = FALSE]
  /\ acts' = Append(acts, [a |-> "drop", i |-> i, k |-> 0])
  /\ UNCHANGED <<todo, out, ended>>
\* a dropped iterator is made anew, for the same query
Renew(i) ==
  /\ ~on[i]
  /\ on' = [on EXCEPT ![i] = TRUE] /\ todo' = [todo EXCEPT ![i] = Start]
  /\ out' = [out EXCEPT ![i] = <<>>] /\ ended' = [ended EXCEPT ![i] = FALSE]
  /\ acts' = Append(acts, [a |-> "new", i |-> i, k |-> i])
Next ==
  /\ Len(acts) < Depth + 2
  /\ \E i \in Its : Ask(i) \/ Discard(i) \/ Renew(i)
  /\ UNCHANGED k
  /\ IF Len(acts') = Depth + 2 THEN PrintT("SCHEDULE " \o ToJson([c |-> k, acts |-> acts'])) ELSE TRUE
Spec == Init /\ [][Next]_vars

Yields == \A i \in Its : LET want == Result(d, Q(i)) IN
            /\ Len(out[i]) <= Len(want) /\ out[i] = SubSeq(want, 1, Len(out[i]))
            /\ ended[i] => out[i] = want
=============================================================================
