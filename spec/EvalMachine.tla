---------------------------- MODULE EvalMachine ----------------------------
(***************************************************************************)
(* Query evaluation as a lazy machine, the way an iterator computes it:    *)
(* todo is a stack of pending work <<n, j, deep>> (node n still has to pass*)
(* segments j..; deep: n is reached inside the descendant segment j), out  *)
(* the nodes handed out so far.  A step takes the first pending item and   *)
(* either hands out its node or replaces it by the pending items of its    *)
(* children, so that nothing is computed before it is asked for.           *)
(*                                                                         *)
(* Explored for every document of up to MAXNODES nodes over a small        *)
(* alphabet and every query of up to MAXSEG of the segments below.  The    *)
(* invariant Owed says that what is out followed by what is pending is, at *)
(* every moment, exactly the node list of RFC 9535 (Result, Eval.tla): the *)
(* lazy order is the segment by segment order.                             *)
(***************************************************************************)
EXTENDS Eval, TLC, Json, IOUtils

MaxNodes == atoi(IOEnv.MAXNODES)
MaxSeg == atoi(IOEnv.MAXSEG)

\* --- texts ----------------------------------------------------------------------
Code(c) ==
  CASE c = "$" -> 36 [] c = "@" -> 64 [] c = "." -> 46 [] c = "*" -> 42 [] c = "[" -> 91 [] c = "]" -> 93
    [] c = "'" -> 39 [] c = "a" -> 97 [] c = "b" -> 98 [] c = "0" -> 48 [] c = "1" -> 49 [] c = "-" -> 45
    [] c = ":" -> 58 [] c = "," -> 44 [] c = "?" -> 63 [] c = "=" -> 61 [] c = "!" -> 33
RECURSIVE CodesOf(_, _)
CodesOf(t, i) == IF i > Len(t) THEN <<>> ELSE <<Code(SubSeq(t, i, i))>> \o CodesOf(t, i + 1)

Segments == << ".a", "['b']", "[0]", "[-1]", ".*", "[::-1]", "[1:]", "['b','a']", "[*,0]", "[?@.a]", "[?@==1]", "[?!@.*]",
               "..a", "..*", "..[0]", "..[*,0]", "..[::-1]", "..[?@.a]" >>
\* the tree of each, by the recogniser
Trees == [j \in DOMAIN Segments |-> Judge(CodesOf("$" \o Segments[j], 1), Std).v[1]]

RECURSIVE Choices(_)
Choices(k) == IF k = 0 THEN {<<>>} ELSE Choices(k - 1) \cup {Append(x, j) : x \in {y \in Choices(k - 1) : Len(y) = k - 1}, j \in DOMAIN Segments}
Queries == Choices(MaxSeg)
RECURSIVE QText(_)
QText(q) == IF q = <<>> THEN "" ELSE Segments[q[1]] \o QText(Tail(q))

\* --- documents ------------------------------------------------------------------
\* trees of exactly n nodes
Tree(t, k, c) == [t |-> t, k |-> k, c |-> c]
RECURSIVE TreesOf(_), Forests(_, _)
TreesOf(n) ==
  IF n = 1 THEN {Tree("n", <<>>, <<>>), Tree("a", <<>>, <<>>), Tree("o", <<>>, <<>>)}
  ELSE {Tree("a", <<>>, f) : f \in UNION {Forests(k, n - 1) : k \in 1..(n - 1)}}
       \cup {Tree("o", <<"a">>, f) : f \in Forests(1, n - 1)}
       \cup {Tree("o", <<"b">>, f) : f \in Forests(1, n - 1)}
       \cup {Tree("o", <<"b", "a">>, f) : f \in Forests(2, n - 1)}
\* sequences of k trees of n nodes together
Forests(k, n) ==
  IF k = 1 THEN {<<t>> : t \in TreesOf(n)}
  ELSE UNION {{<<t>> \o f : t \in TreesOf(h), f \in Forests(k - 1, n - h)} : h \in 1..(n - k + 1)}

RECURSIVE Size(_), Sizes(_), Table(_, _), Tables(_, _), Starts(_, _), TextOf(_), TextsOf(_, _, _)
Size(t) == 1 + Sizes(t.c)
Sizes(ts) == IF ts = <<>> THEN 0 ELSE Size(ts[1]) + Sizes(Tail(ts))
Starts(ts, base) == IF ts = <<>> THEN <<>> ELSE <<base>> \o Starts(Tail(ts), base + Size(ts[1]))
Table(t, base) ==
  << CASE t.t = "n" -> [t |-> "n", m |-> FromInt(1)]
       [] t.t = "a" -> [t |-> "a", c |-> Starts(t.c, base + 1)]
       [] OTHER -> [t |-> "o", c |-> Starts(t.c, base + 1), k |-> [j \in DOMAIN t.k |-> CodesOf(t.k[j], 1)]] >>
  \o Tables(t.c, base + 1)
Tables(ts, base) == IF ts = <<>> THEN <<>> ELSE Table(ts[1], base) \o Tables(Tail(ts), base + Size(ts[1]))
TextOf(t) ==
  CASE t.t = "n" -> "1"
    [] t.t = "a" -> "[" \o TextsOf(t, 1, "") \o "]"
    [] OTHER -> "{" \o TextsOf(t, 1, "") \o "}"
TextsOf(t, j, sep) ==
  IF j > Len(t.c) THEN ""
  ELSE sep \o (IF t.t = "o" THEN "\"" \o t.k[j] \o "\":" ELSE "") \o TextOf(t.c[j]) \o TextsOf(t, j + 1, ",")

Docs == UNION {TreesOf(n) : n \in 1..MaxNodes}

VARIABLES tree, qi, todo, out
vars == <<tree, qi, todo, out>>
d == Table(tree, 1)
q == [j \in DOMAIN qi |-> Trees[qi[j]]]

Items(ns, j, deep) == [h \in DOMAIN ns |-> <<ns[h], j, deep>>]
Init == tree \in Docs /\ qi \in Queries /\ todo = << <<1, 1, FALSE>> >> /\ out = <<>>
Next ==
  /\ todo # <<>>
  /\ LET n == todo[1][1] j == todo[1][2] deep == todo[1][3] rest == Tail(todo) IN
     IF j > Len(q) THEN out' = Append(out, n) /\ todo' = rest
     ELSE /\ out' = out
          /\ todo' = Items(SelsOn(d, q[j].sels, 1, n, <<>>), j + 1, FALSE)
                     \o (IF q[j].k = "desc" THEN Items(Kids(d, n), j, TRUE) ELSE <<>>) \o rest
  /\ IF todo' = <<>> THEN PrintT("EVAL " \o ToJson([q |-> "$" \o QText(qi), doc |-> TextOf(tree)])) ELSE TRUE
  /\ UNCHANGED <<tree, qi>>
Spec == Init /\ [][Next]_vars

RECURSIVE Pending(_)
Pending(ts) == IF ts = <<>> THEN <<>> ELSE Nodes(d, q, ts[1][2], <<ts[1][1]>>) \o Pending(Tail(ts))
Owed == out \o Pending(todo) = Result(d, q)
=============================================================================
