----------------------------- MODULE Agreement -----------------------------
(***************************************************************************)
(* Two descriptions of the same language must agree: the recognisers that  *)
(* judge the implementation (Syntax, IRegexp), which read a text once from *)
(* left to right, and the grammars of the two RFCs as data (AbnfJSONPath,  *)
(* AbnfIRegexp), which know nothing of an order of alternatives.           *)
(*                                                                         *)
(* JSONPath: a text is well-formed, and only singular queries are compared *)
(* in it, exactly when the grammar derives it; the same for the extended   *)
(* syntax.  (The range of integers is not a matter of the grammar: here it *)
(* is as large as can be.)                                                 *)
(* I-Regexp: the grammar is ambiguous where a class begins with "^"; the   *)
(* recogniser reads it as a negation, so "[^]" is left open.               *)
(***************************************************************************)
EXTENDS Syntax, AbnfJSONPath
R == INSTANCE IRegexp
G == INSTANCE AbnfIRegexp

Far == [n |-> 0, d |-> <<1>>, e |-> 40]
Wide == [ext |-> FALSE, lo |-> [Far EXCEPT !.n = 1], hi |-> Far, fns |-> StdFns]
Recognised(s, m) == LET j == Judge(s, m) IN j.wf /\ j.faults \cap {"nonsingular", "blank"} = {}
JSONPathAgrees(s) ==
  /\ Recognised(s, Wide) = InJSONPath(s)
  /\ Recognised(s, [Wide EXCEPT !.ext = TRUE]) = InExtended(s)

OpenClass(s) == \E i \in 1..(Len(s) - 2) : s[i] = 91 /\ s[i + 1] = 94 /\ s[i + 2] = 93
IRegexpAgrees(s) == (R!Pattern(s).ok = G!InIRegexp(s)) \/ OpenClass(s)

AgreeOn(lang, s) == IF lang = "iregexp" THEN IRegexpAgrees(s) ELSE JSONPathAgrees(s)
=============================================================================
