--------------------------- MODULE SessionMachine ---------------------------
(***************************************************************************)
(* All sessions of LEN operations from a small alphabet that leaves out    *)
(* nothing that could interfere: a signature registered twice with         *)
(* different types, a standard name overridden, the range changed before   *)
(* and after a parse, the same text parsed by both parsers, a register     *)
(* overwritten, a failed parse in between, the same query on two documents *)
(* and in two environments.                                                *)
(*                                                                         *)
(* Invariant Independent: the last answer is the answer of a new session   *)
(* that does only what the answer needs.                                   *)
(***************************************************************************)
EXTENDS Session, TLC, Json, IOUtils

LenMax == atoi(IOEnv.LEN)
Cps(x) == x
Vs == <<"V">>  Ns == <<"N">>  Ls == <<"L">>
N0 == [n |-> 0, d |-> <<>>, e |-> 0]
N1 == [n |-> 0, d |-> <<1>>, e |-> 0]
NV == <<118, 118>>

\* $[?vv(@)==count(@[*])]   $[?vv(@.*)]   $[1]   $[?$[0]==@]
T1 == <<36, 91, 63, 118, 118, 40, 64, 41, 61, 61, 99, 111, 117, 110, 116, 40, 64, 91, 42, 93, 41, 93>>
T2 == <<36, 91, 63, 118, 118, 40, 64, 46, 42, 41, 93>>
T3 == <<36, 91, 49, 93>>
T4 == <<36, 91, 63, 36, 91, 48, 93, 61, 61, 64, 93>>
\* $[?count(@[*])>9]
T5 == <<36, 91, 63, 99, 111, 117, 110, 116, 40, 64, 91, 42, 93, 41, 62, 57, 93>>

\* documents: [1, [7], 1]  and  [[1], 0, [[2], 3]]
Num_(k) == [t |-> "n", m |-> FromInt(k)]
Arr_(c) == [t |-> "a", c |-> c]
D1 == << Arr_(<<2, 3, 5>>), Num_(1), Arr_(<<4>>), Num_(7), Num_(1) >>
D2 == << Arr_(<<2, 4, 5>>), Arr_(<<3>>), Num_(1), Num_(0), Arr_(<<6, 8>>), Arr_(<<7>>), Num_(2), Num_(3) >>
Docs == <<D1, D2>>

Ops ==
  {[o |-> "fn", p |-> 1, n |-> NV, ps |-> Vs, r |-> "V"], [o |-> "fn", p |-> 1, n |-> NV, ps |-> Ns, r |-> "L"],
   [o |-> "fn", p |-> 2, n |-> NV, ps |-> Vs, r |-> "V"], [o |-> "fn", p |-> 1, n |-> FnCount, ps |-> Ls, r |-> "L"],
   [o |-> "range", p |-> 1, lo |-> N0, hi |-> N0], [o |-> "range", p |-> 1, lo |-> N0, hi |-> N1]}
  \cup {[o |-> "parse", p |-> p, t |-> t, q |-> 1] : p \in {1, 2}, t \in {T1, T3}}
  \cup {[o |-> "parse", p |-> 1, t |-> t, q |-> 2] : t \in {T2, T4}}
  \cup {[o |-> "eval", q |-> 1, e |-> e, d |-> d] : e \in {1, 2}, d \in {1, 2}}
  \cup {[o |-> "eval", q |-> 2, e |-> 1, d |-> 1]}
  \cup {[o |-> "find", t |-> T5, e |-> e, d |-> 1] : e \in {1, 2}}

VARIABLES st, ops, answers
vars == <<st, ops, answers>>
Init == st = Start(FALSE) /\ ops = <<>> /\ answers = <<>>
Do(op) ==
  /\ Len(ops) < LenMax
  /\ op.o = "eval" => (IF st.qs[op.q].set THEN Evaluable(st.qs[op.q]) ELSE FALSE)
  /\ Len(ops) = LenMax - 1 => op.o \in {"parse", "eval", "find"}
  /\ LET x == Step(st, op, Docs) IN st' = x.st /\ answers' = Append(answers, x.a)
  /\ ops' = Append(ops, op)
  /\ Len(ops') = LenMax => PrintT("SESSION " \o ToJson(ops'))
Next == \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars

Last(s) == s[Len(s)]
Independent ==
  ops # <<>> => LET n == Needed(ops, answers, Len(ops)) IN
                Last(Run(Start(FALSE), n, Docs, <<>>)) = Last(answers)
\* a parse never touches a register other than its own, an error touches none
Kept == \A q \in 1..3 : st.qs[q].set <=> \E j \in DOMAIN ops : ops[j].o = "parse" /\ ops[j].q = q /\ answers[j].k = "query"
=============================================================================
