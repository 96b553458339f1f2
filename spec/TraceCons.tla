----------------------------- MODULE TraceCons -----------------------------
(***************************************************************************)
(* Validation of recorded histories of the real lists: after every         *)
(* operation the sequences of ConsList give what every observer of every   *)
(* register, and every comparison of two, must have answered; the heap     *)
(* gives how many elements must be alive.                                  *)
(*                                                                         *)
(* A record is [regs, ops, brief, obs, left, w].  With brief, lists are of *)
(* the form <<n, .., 2, 1>> and only their length is kept (for long ones). *)
(***************************************************************************)
EXTENDS ConsList, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NCH == 32
VARIABLES ch, pos

Full(o) == o @@ [s |-> 1, x |-> 0, n |-> 0, xs |-> <<>>]

Hints(xs) == [j \in 1..(Len(xs) + 1) |-> <<Len(xs) - j + 1, Len(xs) - j + 1, Len(xs) - j + 1>>]
ListOK(l, o) ==
  LET xs == l.xs IN
  /\ o.on = l.on
  /\ o.len = Len(xs)
  /\ o.empty = (xs = <<>>)
  /\ o.head = (IF xs = <<>> THEN <<>> ELSE <<xs[1]>>)
  /\ o.last = (IF xs = <<>> THEN <<>> ELSE <<xs[Len(xs)]>>)
  /\ l.on => /\ o.xs = xs
             /\ o.alike
             /\ o.hints = Hints(xs)
PairOK(a, b, p) ==
  LET c == ListCmp(a, b, 1) IN
  /\ p.eq = ListEq(a, b)
  /\ p.ne = ~ListEq(a, b)
  /\ a = b => p.h
  /\ p.c = c
  /\ p.lt = (c = "lt") /\ p.le = (c \in {"lt", "eq"}) /\ p.gt = (c = "gt") /\ p.ge = (c \in {"gt", "eq"})

RECURSIVE Cells(_)
Cells(ops) == IF ops = <<>> THEN 0 ELSE (IF ops[1].op = "append" THEN 1 ELSE IF ops[1].op = "collect" THEN Len(ops[1].xs) ELSE 0) + Cells(Tail(ops))

\* the first operation after which something differs, 0 if none
RECURSIVE Walk(_, _, _, _, _)
Walk(r, j, regs, heap, fronts) ==
  IF j > Len(r.ops) THEN 0
  ELSE LET o == Full(r.ops[j])
           g == Apply(regs, o)
           st == Step(heap, fronts, o)
           ob == r.obs[j] IN
       IF /\ \A i \in DOMAIN g : ListOK(g[i], ob.lists[i])
          /\ \A i \in DOMAIN ob.pairs : PairOK(g[ob.pairs[i].i].xs, g[ob.pairs[i].k].xs, ob.pairs[i])
          /\ ob.live = Live(st.heap)
       THEN Walk(r, j + 1, g, st.heap, st.fronts)
       ELSE j

\* long lists <<n, .., 1>>: only n, or -1 for no list
Min(a, b) == IF a < b THEN a ELSE b
Long(ns, o) ==
  CASE o.op \in {"new", "default"} -> 0
    [] o.op = "count" -> o.n
    [] o.op = "append" -> ns[o.s] + 1
    [] o.op = "tail" -> IF ns[o.s] > 0 THEN ns[o.s] - 1 ELSE 0
    [] o.op = "tailn" -> IF ns[o.s] > o.n THEN ns[o.s] - o.n ELSE 0
    [] o.op = "lastn" -> Min(ns[o.s], o.n)
    [] o.op = "clone" -> ns[o.s]
    [] o.op = "drop" -> -1
LongOK(n, o) ==
  /\ o.on = (n >= 0)
  /\ o.len = (IF n < 0 THEN 0 ELSE n)
  /\ o.empty = (n <= 0)
  /\ o.head = (IF n <= 0 THEN <<>> ELSE <<n>>)
  /\ o.last = (IF n <= 0 THEN <<>> ELSE <<1>>)
RECURSIVE WalkLong(_, _, _)
WalkLong(r, j, ns) ==
  IF j > Len(r.ops) THEN 0
  ELSE LET o == Full(r.ops[j])
           g == [ns EXCEPT ![o.r] = Long(ns, o)] IN
       IF \A i \in DOMAIN g : LongOK(g[i], r.obs[j].lists[i]) THEN WalkLong(r, j + 1, g) ELSE j

Check(r) ==
  LET j == IF r.brief THEN WalkLong(r, 1, [i \in 1..r.regs |-> -1])
           ELSE Walk(r, 1, [i \in 1..r.regs |-> Off], [c \in 1..(Cells(r.ops) + 1) |-> [x |-> 0, next |-> 0, rc |-> 0]], [i \in 1..r.regs |-> NoFront])
  IN IF j # 0 THEN [at |-> j, what |-> r.ops[j].op]
     ELSE IF r.left # 0 THEN [at |-> Len(r.ops) + 1, what |-> "elements left after all lists are gone"]
     ELSE [at |-> 0, what |-> "ok"]

Report(r) ==
  LET c == Check(r) IN
  IF c.at = 0 THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([id |-> r.id, bad |-> <<[at |-> c.at, what |-> c.what, w |-> r.w]>>]))

Init == ch \in 1..NCH /\ pos = 0
Next == /\ pos * NCH + ch <= Len(Trace)
        /\ Report(Trace[pos * NCH + ch])
        /\ pos' = pos + 1
        /\ ch' = ch
Spec == Init /\ [][Next]_<<ch, pos>>
=============================================================================
