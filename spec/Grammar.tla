------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* RFC 9535 as a derivation machine: leftmost derivations of the grammar,  *)
(* one production per step, over a reduced alphabet of tokens.  out is the *)
(* text derived so far, todo what remains to be derived; productions of    *)
(* function calls are split by result type, so that every sentence is      *)
(* well-typed.                                                             *)
(*                                                                         *)
(* The machine is independent of the recogniser in Syntax: the invariant   *)
(* Sound says that the recogniser accepts every sentence derived.  The     *)
(* sentences are printed and replayed into the seven parsers.              *)
(***************************************************************************)
EXTENDS Syntax, TLC, Json, IOUtils

MaxTok == atoi(IOEnv.MAXTOK)

VARIABLES out, todo

P(A) ==
  CASE A = "Segs" -> {<<>>, <<"Seg", "Segs">>}
    [] A = "Seg" -> {<<".", "a">>, <<".", "*">>, <<"..", "a">>, <<"..", "*">>, <<"Br">>, <<"..", "Br">>}
    [] A = "Br" -> {<<"[", "Sels", "]">>}
    [] A = "Sels" -> {<<"Sel">>, <<"Sel", ",", "Sels">>}
    [] A = "Sel" -> {<<"'b'">>, <<"0">>, <<"*">>, <<"?", "Or">>, <<":">>, <<"1", ":">>, <<":", "2">>, <<":", ":", "-1">>, <<"1", ":", "2", ":">>}
    [] A = "Or" -> {<<"And">>, <<"And", "||", "Or">>}
    [] A = "And" -> {<<"Basic">>, <<"Basic", "&&", "And">>}
    [] A = "Basic" -> {<<"(", "Or", ")">>, <<"!", "(", "Or", ")">>, <<"Test">>, <<"!", "Test">>, <<"Val", "Op", "Val">>}
    [] A = "Test" -> {<<"@", "Segs">>, <<"$", "Segs">>, <<"match(", "Val", ",", "Val", ")">>}
    [] A = "Val" -> {<<"1">>, <<"'b'">>, <<"true">>, <<"@", "SSegs">>, <<"$", "SSegs">>, <<"count(", "Nodes", ")">>, <<"length(", "Val", ")">>, <<"value(", "Nodes", ")">>}
    [] A = "Nodes" -> {<<"@", "Segs">>, <<"$", "Segs">>}
    [] A = "SSegs" -> {<<>>, <<"SSeg", "SSegs">>}
    [] A = "SSeg" -> {<<".", "a">>, <<"[", "'b'", "]">>, <<"[", "0", "]">>}
    [] A = "Op" -> {<<"==">>, <<"<">>}
    [] OTHER -> {}

NonTerminals == {"Segs", "Seg", "Br", "Sels", "Sel", "Or", "And", "Basic", "Test", "Val", "Nodes", "SSegs", "SSeg", "Op"}
MinLen(A) ==
  CASE A \in {"Segs", "SSegs"} -> 0
    [] A \in {"Seg"} -> 2
    [] A \in {"SSeg"} -> 2
    [] A = "Br" -> 3
    [] OTHER -> 1

RECURSIVE Need(_)
Need(t) == IF t = <<>> THEN 0 ELSE MinLen(t[1]) + Need(Tail(t))

\* move terminals from the front of todo to out
RECURSIVE Shift(_, _)
Shift(o, t) ==
  IF t = <<>> \/ t[1] \in NonTerminals THEN [o |-> o, t |-> t]
  ELSE Shift(Append(o, t[1]), Tail(t))

Cps(k) ==
  CASE k = "$" -> <<36>> [] k = "@" -> <<64>> [] k = "." -> <<46>> [] k = ".." -> <<46, 46>>
    [] k = "[" -> <<91>> [] k = "]" -> <<93>> [] k = "," -> <<44>> [] k = "*" -> <<42>> [] k = "?" -> <<63>>
    [] k = ":" -> <<58>> [] k = "(" -> <<40>> [] k = ")" -> <<41>> [] k = "!" -> <<33>>
    [] k = "||" -> <<124, 124>> [] k = "&&" -> <<38, 38>> [] k = "==" -> <<61, 61>> [] k = "<" -> <<60>>
    [] k = "a" -> <<97>> [] k = "'b'" -> <<39, 98, 39>> [] k = "0" -> <<48>> [] k = "1" -> <<49>> [] k = "2" -> <<50>>
    [] k = "-1" -> <<45, 49>> [] k = "true" -> KwTrue
    [] k = "match(" -> FnMatch \o <<40>> [] k = "count(" -> FnCount \o <<40>>
    [] k = "length(" -> FnLength \o <<40>> [] k = "value(" -> FnValue \o <<40>>

RECURSIVE Text(_)
Text(ts) == IF ts = <<>> THEN <<>> ELSE Cps(ts[1]) \o Text(Tail(ts))

Init == out = <<"$">> /\ todo = <<"Segs">>
Next ==
  /\ todo # <<>>
  /\ \E rhs \in P(todo[1]) :
       LET r == Shift(out, rhs \o Tail(todo)) IN
       /\ Len(r.o) + Need(r.t) <= MaxTok
       /\ out' = r.o
       /\ todo' = r.t
  /\ IF todo' = <<>> THEN PrintT("SENTENCE " \o ToJson(out')) ELSE TRUE
Spec == Init /\ [][Next]_<<out, todo>>

\* the recogniser accepts what the grammar derives, with exactly one tree shape
Sound == todo = <<>> => Accepts(Text(out), Std)
=============================================================================
