-------------------------------- MODULE Abnf --------------------------------
(***************************************************************************)
(* Grammars in ABNF (RFC 5234) as data, and the texts they derive.         *)
(*                                                                         *)
(* A grammar g is a function from rule names to expressions; an expression *)
(* is a range of characters, a concatenation, an alternative, a repetition *)
(* or the name of a rule.  Ends(g, x, s, i) is the set of all places where *)
(* a part of s that starts at place i and that x derives can end, so that  *)
(* nothing depends on an order of alternatives or on a choice of what is   *)
(* repeated: a text is derived if any derivation exists.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Rg(lo, hi) == [k |-> "rg", lo |-> lo, hi |-> hi]
Ch(c) == Rg(c, c)
Cat(xs) == [k |-> "cat", xs |-> xs]
Alt(xs) == [k |-> "alt", xs |-> xs]
Rep(lo, hi, x) == [k |-> "rep", lo |-> lo, hi |-> hi, x |-> x]
Star(x) == Rep(0, -1, x)
Plus(x) == Rep(1, -1, x)
Opt(x) == Rep(0, 1, x)
Ref(n) == [k |-> "ref", n |-> n]
\* a string of characters, exactly
Word(cs) == Cat([j \in DOMAIN cs |-> Ch(cs[j])])

RECURSIVE Ends(_, _, _, _), CatEnds(_, _, _, _, _), RepEnds(_, _, _, _, _, _)
Ends(g, x, s, i) ==
  CASE x.k = "rg" -> IF i <= Len(s) /\ x.lo <= s[i] /\ s[i] <= x.hi THEN {i + 1} ELSE {}
    [] x.k = "cat" -> CatEnds(g, x.xs, 1, s, {i})
    [] x.k = "alt" -> UNION {Ends(g, x.xs[j], s, i) : j \in DOMAIN x.xs}
    [] x.k = "rep" -> RepEnds(g, x, s, {i}, 0, IF x.lo = 0 THEN {i} ELSE {})
    [] x.k = "ref" -> Ends(g, g[x.n], s, i)
CatEnds(g, xs, j, s, S) ==
  IF j > Len(xs) \/ S = {} THEN S ELSE CatEnds(g, xs, j + 1, s, UNION {Ends(g, xs[j], s, i) : i \in S})
\* S: the ends after n repetitions, acc: all ends of enough of them
RepEnds(g, x, s, S, n, acc) ==
  IF x.hi = n \/ S = {} THEN acc
  ELSE LET T == UNION {Ends(g, x.x, s, i) : i \in S}
           new == IF n + 1 > x.lo THEN T \ acc ELSE T IN
       RepEnds(g, x, s, new, n + 1, IF n + 1 >= x.lo THEN acc \cup T ELSE acc)

Derives(g, start, s) == Len(s) + 1 \in Ends(g, Ref(start), s, 1)
=============================================================================
