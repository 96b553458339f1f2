------------------------------ MODULE ConsList ------------------------------
(***************************************************************************)
(* Persistent lists (the locations of nodes): what they are for their user,*)
(* and how they are stored.                                                *)
(*                                                                         *)
(* A register holds no list or a list.  For the user (Seq) a list is a     *)
(* sequence; in memory (heap) it is a chain of cells [x, next, rc], shared *)
(* between lists, each cell freed when its last reference goes.  Apply     *)
(* gives the effect of an operation on sequences, Step the effect in the   *)
(* heap; the machine ConsListMachine explores both together.               *)
(*                                                                         *)
(* The element 9 is comparable to nothing, not even itself (like a NaN).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Off == [on |-> FALSE, xs |-> <<>>]
On(xs) == [on |-> TRUE, xs |-> xs]

RECURSIVE Rev(_)
Rev(xs) == IF xs = <<>> THEN <<>> ELSE Append(Rev(Tail(xs)), xs[1])
Drop_(xs, n) == IF n >= Len(xs) THEN <<>> ELSE SubSeq(xs, n + 1, Len(xs))
Keep(xs, n) == IF n >= Len(xs) THEN xs ELSE SubSeq(xs, Len(xs) - n + 1, Len(xs))

\* regs: register to list; the operation o writes register o.r
Made(regs, o) ==
  CASE o.op \in {"new", "default"} -> On(<<>>)
    [] o.op = "append" -> On(<<o.x>> \o regs[o.s].xs)
    [] o.op = "tail" -> On(Drop_(regs[o.s].xs, 1))
    [] o.op = "tailn" -> On(Drop_(regs[o.s].xs, o.n))
    [] o.op = "lastn" -> On(Keep(regs[o.s].xs, o.n))
    [] o.op = "clone" -> On(regs[o.s].xs)
    [] o.op = "collect" -> On(Rev(o.xs))
    [] o.op = "drop" -> Off
Apply(regs, o) == [regs EXCEPT ![o.r] = Made(regs, o)]

ElemEq(x, y) == x = y /\ x # 9
ElemCmp(x, y) == IF x = 9 \/ y = 9 THEN "none" ELSE IF x < y THEN "lt" ELSE IF x > y THEN "gt" ELSE "eq"
ListEq(a, b) == Len(a) = Len(b) /\ \A j \in DOMAIN a : ElemEq(a[j], b[j])
RECURSIVE ListCmp(_, _, _)
ListCmp(a, b, j) ==
  IF j > Len(a) /\ j > Len(b) THEN "eq"
  ELSE IF j > Len(a) THEN "lt"
  ELSE IF j > Len(b) THEN "gt"
  ELSE LET c == ElemCmp(a[j], b[j]) IN IF c = "eq" THEN ListCmp(a, b, j + 1) ELSE c

\* --- in memory ------------------------------------------------------------------
\* heap: a sequence of cells [x, next, rc]; next 0: the end; rc 0: free.
\* fronts: register to [on, at, len]; at: the first cell, 0 when empty.
NoFront == [on |-> FALSE, at |-> 0, len |-> 0]
RECURSIVE Chain(_, _), Unref(_, _), At_(_, _, _), Push(_, _, _, _)
Chain(heap, c) == IF c = 0 THEN <<>> ELSE <<heap[c].x>> \o Chain(heap, heap[c].next)
Ref(heap, c) == IF c = 0 THEN heap ELSE [heap EXCEPT ![c].rc = @ + 1]
\* give up one reference to c; a cell without references is freed and gives up its next
Unref(heap, c) ==
  IF c = 0 THEN heap
  ELSE IF heap[c].rc > 1 THEN [heap EXCEPT ![c].rc = @ - 1]
  ELSE Unref([heap EXCEPT ![c] = [x |-> 0, next |-> 0, rc |-> 0]], heap[c].next)
At_(heap, c, n) == IF n = 0 THEN c ELSE At_(heap, heap[c].next, n - 1)
FreeCell(heap) == CHOOSE c \in DOMAIN heap : heap[c].rc = 0 /\ \A b \in DOMAIN heap : heap[b].rc = 0 => b >= c
\* a new cell holding x in front of c, which gets one reference more
Cons(heap, x, c) ==
  LET h == Ref(heap, c) f == FreeCell(h) IN [heap |-> [h EXCEPT ![f] = [x |-> x, next |-> c, rc |-> 1]], at |-> f]
\* append xs one by one, giving up the intermediate lists
Push(heap, at, xs, len) ==
  IF xs = <<>> THEN [heap |-> heap, at |-> at, len |-> len]
  ELSE LET c == Cons(heap, xs[1], at) IN Push(Unref(c.heap, at), c.at, Tail(xs), len + 1)

Alloc(heap, fronts, o) ==
  LET s == fronts[o.s]
      from(n) == IF s.len <= n THEN [heap |-> heap, at |-> 0, len |-> 0]
                 ELSE LET c == At_(heap, s.at, n) IN [heap |-> Ref(heap, c), at |-> c, len |-> s.len - n] IN
  CASE o.op \in {"new", "default", "drop"} -> [heap |-> heap, at |-> 0, len |-> 0]
    [] o.op = "append" -> LET c == Cons(heap, o.x, s.at) IN [heap |-> c.heap, at |-> c.at, len |-> s.len + 1]
    [] o.op = "tail" -> from(1)
    [] o.op = "tailn" -> from(o.n)
    [] o.op = "lastn" -> IF o.n >= s.len THEN from(0) ELSE from(s.len - o.n)
    [] o.op = "clone" -> [heap |-> Ref(heap, s.at), at |-> s.at, len |-> s.len]
    [] o.op = "collect" -> Push(heap, 0, o.xs, 0)
Step(heap, fronts, o) ==
  LET a == Alloc(heap, fronts, o) IN
  [heap |-> Unref(a.heap, fronts[o.r].at),
   fronts |-> [fronts EXCEPT ![o.r] = IF o.op = "drop" THEN NoFront ELSE [on |-> TRUE, at |-> a.at, len |-> a.len]]]

Live(heap) == Cardinality({c \in DOMAIN heap : heap[c].rc > 0})
=============================================================================
