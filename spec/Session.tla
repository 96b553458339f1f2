------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A session: what a program does with the library over time.  It has two  *)
(* parsers, which it configures and reconfigures (registered signatures,   *)
(* range of index integers), keeps parsed queries in three registers, and  *)
(* evaluates them, as often as it likes, on its documents in one of two    *)
(* environments.  The environments have the same function names; the       *)
(* second one has other functions under some of them.                      *)
(*                                                                         *)
(* An operation is a record with field o:                                  *)
(*   fn     register signature [n, ps, r] with parser p                    *)
(*   range  parser p accepts the index integers lo..hi                     *)
(*   parse  text t with parser p, the query goes to register q             *)
(*   eval   the query in register q in environment e on document d         *)
(*   find   text t straight in environment e on document d: only the       *)
(*          standard names are known, what they do is the environment's    *)
(*                                                                         *)
(* Step gives the next state and the answer.  That an answer depends on    *)
(* nothing but the configuration, the text, the environment and the        *)
(* document is visible in Needed: of the operations before it, an answer   *)
(* needs only those that configured the parser before the parse, and that  *)
(* parse.  SessionMachine checks that replaying just those gives the same  *)
(* answer; TraceSession checks recorded sessions of the real code.         *)
(***************************************************************************)
EXTENDS Eval

NoQuery == [set |-> FALSE, v |-> <<>>, fns |-> <<>>]
Start(ext) == [ps |-> <<[Std EXCEPT !.ext = ext], [Std EXCEPT !.ext = ext]>>, qs |-> <<NoQuery, NoQuery, NoQuery>>]

\* --- environments ---------------------------------------------------------------
Replaced == {<<118, 118>>, <<118, 108>>, <<108, 108>>, <<110, 108>>, <<110, 110>>, <<111, 110, 101>>, FnCount}
RECURSIVE InX(_, _), InQ(_, _)
InName(name, e) == IF e = 2 /\ name \in Replaced THEN Second(name) ELSE name
InX(x, e) ==
  CASE x.k \in {"or", "and"} -> [x EXCEPT !.xs = [j \in DOMAIN x.xs |-> InX(x.xs[j], e)]]
    [] x.k \in {"not", "paren"} -> [x EXCEPT !.x = InX(x.x, e)]
    [] x.k = "cmp" -> [x EXCEPT !.l = InX(x.l, e), !.r = InX(x.r, e)]
    [] x.k \in {"rel", "abs"} -> [x EXCEPT !.q = InQ(x.q, e)]
    [] x.k = "fn" -> [x EXCEPT !.fname = InName(x.fname, e), !.args = [j \in DOMAIN x.args |-> InX(x.args[j], e)]]
    [] OTHER -> x
InQ(q, e) ==
  [j \in DOMAIN q |-> [q[j] EXCEPT !.sels =
     [h \in DOMAIN q[j].sels |-> IF q[j].sels[h].k = "filter" THEN [q[j].sels[h] EXCEPT !.x = InX(q[j].sels[h].x, e)] ELSE q[j].sels[h]]]]

\* the functions a query calls
RECURSIVE CalledX(_), CalledQ(_)
CalledX(x) ==
  CASE x.k \in {"or", "and"} -> UNION {CalledX(x.xs[j]) : j \in DOMAIN x.xs}
    [] x.k \in {"not", "paren"} -> CalledX(x.x)
    [] x.k = "cmp" -> CalledX(x.l) \cup CalledX(x.r)
    [] x.k \in {"rel", "abs"} -> CalledQ(x.q)
    [] x.k = "fn" -> {x.fname} \cup UNION {CalledX(x.args[j]) : j \in DOMAIN x.args}
    [] OTHER -> {}
CalledQ(q) == UNION {UNION {IF q[j].sels[h].k = "filter" THEN CalledX(q[j].sels[h].x) ELSE {} : h \in DOMAIN q[j].sels} : j \in DOMAIN q}

\* A query can be evaluated if what its parser was told about its functions is
\* what the environments have.
Known(name) == \E j \in DOMAIN FnTable : FnTable[j].n = name
Evaluable(r) == r.set /\ \A f \in CalledQ(r.v) : Known(f) /\ FnSig(f, [fns |-> r.fns]) = FnSig(f, [fns |-> FnTable])

\* --- steps ----------------------------------------------------------------------
\* kinds of errors that a text may be rejected with
Kinds(j) == IF ~j.wf THEN {"syntax", "name", "type"}
            ELSE IF j.faults = {"name"} THEN {"name"} ELSE IF j.faults = {"type"} THEN {"type"} ELSE {"syntax", "name", "type"}

Silent == [k |-> "silent"]
Step(st, op, docs) ==
  CASE op.o = "fn" -> [st |-> [st EXCEPT !.ps[op.p].fns = Append(@, [n |-> op.n, p |-> op.ps, r |-> op.r])], a |-> Silent]
    [] op.o = "range" -> [st |-> [st EXCEPT !.ps[op.p].lo = op.lo, !.ps[op.p].hi = op.hi], a |-> Silent]
    [] op.o = "parse" ->
         LET m == st.ps[op.p] j == Judge(op.t, m) IN
         IF j.wf /\ j.faults = {}
         THEN [st |-> [st EXCEPT !.qs[op.q] = [set |-> TRUE, v |-> j.v, fns |-> m.fns]], a |-> [k |-> "query", tree |-> StripQ(j.v), sing |-> IsSingularQ(j.v)]]
         ELSE [st |-> st, a |-> [k |-> "error", kinds |-> Kinds(j)]]
    [] op.o = "eval" ->
         LET r == st.qs[op.q] IN
         [st |-> st, a |-> IF ~r.set THEN [k |-> "nothing"] ELSE [k |-> "nodes", ids |-> Result(docs[op.d], InQ(r.v, op.e))]]

    [] op.o = "find" ->
         LET j == Judge(op.t, [Std EXCEPT !.ext = st.ps[1].ext]) IN
         [st |-> st, a |-> IF j.wf /\ j.faults = {} THEN [k |-> "nodes", ids |-> Result(docs[op.d], InQ(j.v, op.e))] ELSE [k |-> "nothing"]]

RECURSIVE Run(_, _, _, _)
Run(st, ops, docs, answers) ==
  IF ops = <<>> THEN answers
  ELSE LET x == Step(st, ops[1], docs) IN Run(x.st, Tail(ops), docs, Append(answers, x.a))

\* --- what an answer needs ----------------------------------------------------------
Configures(op, p) == op.o \in {"fn", "range"} /\ op.p = p
Before(ops, i, p) == {j \in 1..(i - 1) : Configures(ops[j], p)}
\* the parse that register q holds before operation i (0: none)
Filled(ops, answers, i, q) ==
  LET J == {j \in 1..(i - 1) : ops[j].o = "parse" /\ ops[j].q = q /\ answers[j].k = "query"} IN
  IF J = {} THEN 0 ELSE CHOOSE j \in J : \A h \in J : h <= j
NeededAt(ops, answers, i) ==
  IF ops[i].o = "parse" THEN Before(ops, i, ops[i].p) \cup {i}
  ELSE IF ops[i].o = "eval" THEN LET f == Filled(ops, answers, i, ops[i].q) IN IF f = 0 THEN {i} ELSE Before(ops, f, ops[f].p) \cup {f, i}
  ELSE {i}
RECURSIVE Pick(_, _, _)
Pick(ops, J, i) == IF i > Len(ops) THEN <<>> ELSE (IF i \in J THEN <<ops[i]>> ELSE <<>>) \o Pick(ops, J, i + 1)
Needed(ops, answers, i) == Pick(ops, NeededAt(ops, answers, i), 1)
=============================================================================
