-------------------------- MODULE ConsListMachine ---------------------------
(***************************************************************************)
(* All histories of up to DEPTH operations on three registers, the first   *)
(* of which starts with a list of two elements.  The heap refines the      *)
(* sequences: Abs.  Every history is printed, to be replayed in the real   *)
(* lists.                                                                  *)
(***************************************************************************)
EXTENDS ConsList, TLC, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)
Rs == 1..3
Ops == {[op |-> "append", r |-> r, s |-> s, x |-> 1] : r \in Rs, s \in Rs}
       \cup {[op |-> "append", r |-> 1, s |-> 2, x |-> 9]}
       \cup {[op |-> "tail", r |-> r, s |-> s] : r \in {1, 2}, s \in Rs}
       \cup {[op |-> "tailn", r |-> 2, s |-> s, n |-> n] : s \in {1, 2}, n \in {0, 2}}
       \cup {[op |-> "lastn", r |-> 3, s |-> s, n |-> n] : s \in {1, 2}, n \in {0, 1, 2}}
       \cup {[op |-> "clone", r |-> r, s |-> s] : r \in Rs, s \in Rs}
       \cup {[op |-> "drop", r |-> r] : r \in Rs}
       \cup {[op |-> "collect", r |-> 1, xs |-> <<2, 1>>], [op |-> "new", r |-> 2]}
First == [op |-> "collect", r |-> 1, xs |-> <<1, 2>>]

VARIABLES regs, heap, fronts, hist
vars == <<regs, heap, fronts, hist>>

H0 == [c \in 1..16 |-> [x |-> 0, next |-> 0, rc |-> 0]]
F0 == [r \in Rs |-> NoFront]
Full(o) == o @@ [s |-> 1, x |-> 0, n |-> 0, xs |-> <<>>]
Do(o, h, f, g) == LET st == Step(h, f, Full(o)) IN
                  /\ regs' = Apply(g, Full(o)) /\ heap' = st.heap /\ fronts' = st.fronts

Init == LET st == Step(H0, F0, Full(First)) IN
        /\ regs = Apply([r \in Rs |-> Off], Full(First)) /\ heap = st.heap /\ fronts = st.fronts /\ hist = <<First>>
Reads(o) == o.op \notin {"new", "drop", "collect"}
Next == /\ Len(hist) <= Depth
        /\ \E o \in Ops :
             /\ Reads(o) => regs[o.s].on
             /\ o.op = "drop" => regs[o.r].on
             /\ Do(o, heap, fronts, regs)
             /\ hist' = Append(hist, o)
             /\ IF Len(hist) = Depth THEN PrintT("HISTORY " \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars

\* the heap represents exactly the sequences
Abs == \A r \in Rs : /\ fronts[r].on = regs[r].on
                     /\ Chain(heap, fronts[r].at) = regs[r].xs
                     /\ fronts[r].len = Len(regs[r].xs)
\* references are counted exactly, so that nothing is freed early or leaks
Refs(c) == Cardinality({r \in Rs : fronts[r].at = c}) + Cardinality({b \in DOMAIN heap : heap[b].rc > 0 /\ heap[b].next = c})
Counted == \A c \in DOMAIN heap : heap[c].rc = Refs(c)
=============================================================================
