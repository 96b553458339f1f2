------------------------------ MODULE Lexical ------------------------------
(***************************************************************************)
(* Tokens and spans of the hand-written parser.  Spans are <<lo, hi>>,     *)
(* counted in characters from 0, hi excluded; -1 marks a position that is  *)
(* out of bounds or inside a character.                                    *)
(*                                                                         *)
(* Tiling says what a sequence of tokens of a text must look like, for     *)
(* every text, and Anchored what the spans of a syntax tree must be, given *)
(* the tokens: every construct is tied, in text order, to the token it     *)
(* begins with, and what it denotes is what the text at that span denotes  *)
(* by the grammar (Syntax.tla).                                            *)
(***************************************************************************)
EXTENDS Syntax

Span(s, t) == SubSeq(s, t.lo + 1, t.hi)

\* --- what the text of a token of each kind is ---------------------------------
Fixed ==
  [x \in {"$", "@", "..", "*", "[", "]", "?", ",", ":", "(", ")", "!", "==", "!=", "<=", ">=", "<", ">", "&&", "||", "true", "false", "null"} |->
   CASE x = "$" -> <<36>> [] x = "@" -> <<64>> [] x = ".." -> <<46, 46>> [] x = "*" -> <<42>> [] x = "[" -> <<91>> [] x = "]" -> <<93>>
     [] x = "?" -> <<63>> [] x = "," -> <<44>> [] x = ":" -> <<58>> [] x = "(" -> <<40>> [] x = ")" -> <<41>> [] x = "!" -> <<33>>
     [] x = "==" -> <<61, 61>> [] x = "!=" -> <<33, 61>> [] x = "<=" -> <<60, 61>> [] x = ">=" -> <<62, 61>> [] x = "<" -> <<60>> [] x = ">" -> <<62>>
     [] x = "&&" -> <<38, 38>> [] x = "||" -> <<124, 124>> [] x = "true" -> KwTrue [] x = "false" -> KwFalse [] x = "null" -> KwNull]
AllDigits(x, i) == i <= Len(x) /\ \A j \in i..Len(x) : IsDigit(x[j])
Unsigned(x) == IF x # <<>> /\ x[1] = 45 THEN Tail(x) ELSE x
HasMark(x) == \E j \in DOMAIN x : x[j] \in {46, 69, 101}
IsText(s, t) ==
  LET x == Span(s, t) IN
  CASE t.k \in DOMAIN Fixed -> x = Fixed[t.k] /\ t.v = <<>>
    [] t.k = "name" -> /\ t.v = x /\ x # <<>> /\ IsNameFirst(x[1]) /\ \A j \in DOMAIN x : IsNameChar(x[j])
                       \* the longest such text
                       /\ ~IsNameChar(At(s, t.hi + 1))
    [] t.k = "index" -> t.v = x /\ AllDigits(Unsigned(x), 1) /\ ~IsDigit(At(s, t.hi + 1))
    [] t.k \in {"int", "float"} ->
         LET n == PNumber(s, t.lo + 1) IN t.v = x /\ n.ok /\ n.i = t.hi + 1 /\ (t.k = "float" => HasMark(x))
    [] t.k = "fn" -> t.v = x /\ x # <<>> /\ IsLower(x[1]) /\ (\A j \in DOMAIN x : IsFnChar(x[j])) /\ At(s, t.hi + 1) = 40
    [] t.k \in {"sq", "dq"} ->
         LET q == IF t.k = "sq" THEN SQ ELSE DQ IN t.v = x /\ At(s, t.lo) = q /\ At(s, t.hi + 1) = q
    [] t.k = "eoq" -> t.lo = Len(s) /\ t.hi = Len(s)
    [] t.k = "error" -> TRUE
    [] OTHER -> FALSE

\* --- what lies between two tokens ---------------------------------------------
\* from and to as text positions counted from 0; a the token before, b the token after
Gap(s, a, b) ==
  LET isStr(t) == t.k \in {"sq", "dq"}
      from == IF isStr(a) \/ a.k = "fn" THEN a.hi + 1 ELSE a.hi
      dot == b.k \in {"name", "*", "error"} /\ b.lo > from /\ s[b.lo] = 46
      quote == isStr(b) \/ (b.k = "error" /\ b.lo > from /\ s[b.lo] \in {SQ, DQ})
      to == IF dot \/ quote THEN b.lo - 1 ELSE b.lo
  IN from <= to /\ \A j \in from + 1..to : IsB(s[j])

InBounds(s, x) == 0 <= x.lo /\ x.lo <= x.hi /\ x.hi <= Len(s)

\* the defects of a token sequence
TilingDefects(s, ts) ==
  LET n == Len(ts)
      ok == {j \in 1..n : InBounds(s, ts[j])} IN
  IF n = 0 THEN {"no tokens"}
  ELSE (IF ok # 1..n THEN {"a span is out of bounds or splits a character"} ELSE {})
       \cup (IF ts[n].k \notin {"eoq", "error"} THEN {"no token at the end"} ELSE {})
       \cup (IF \E j \in 1..(n - 1) : ts[j].k \in {"eoq", "error"} THEN {"an end token before the end"} ELSE {})
       \cup (IF \E j \in ok : ~IsText(s, ts[j]) THEN {"a token is not the text at its span"} ELSE {})
       \cup (IF \E j \in 1..(n - 1) : j \in ok /\ j + 1 \in ok /\ ts[j].hi > ts[j + 1].lo THEN {"tokens overlap or are out of order"} ELSE {})
       \cup (IF \E j \in 1..(n - 1) : j \in ok /\ j + 1 \in ok /\ ts[j].hi <= ts[j + 1].lo /\ ~Gap(s, ts[j], ts[j + 1]) THEN {"text between tokens"} ELSE {})
       \cup (IF 1 \in ok /\ ts[1].lo # 0 THEN {"text before the first token"} ELSE {})
       \cup (IF \E j \in 1..n : ~ts[j].shown THEN {"a token is not printed"} ELSE {})

\* --- spans of a syntax tree ---------------------------------------------------
Dropped == {"]", "(", ")", "==", "!=", "<=", ">=", "<", ">", "&&", "||"}
Kept(ts) == SelectSeq(ts, LAMBDA t : t.k \notin Dropped)
SameSpan(a, t) == a.lo = t.lo /\ a.hi = t.hi

Decoded(s, t) == \* of a quoted token
  LET r == PString(s, t.lo) IN IF r.ok /\ r.i = t.hi + 2 THEN <<r.v>> ELSE <<>>
\* the construct at a is the token t
IsToken(s, a, t) ==
  CASE a.k = "name" -> \/ t.k = "name" /\ a.v = t.v
                       \/ t.k \in {"sq", "dq"} /\ <<a.v>> = Decoded(s, t)
    [] a.k = "str" -> t.k \in {"sq", "dq"} /\ <<a.v>> = Decoded(s, t)
    [] a.k = "index" -> t.k = "index" /\ LET r == PInt(s, t.lo + 1) IN r.ok /\ r.v = a.v
    [] a.k = "num" -> t.k \in {"int", "float"} /\ LET r == PNumber(s, t.lo + 1) IN r.ok /\ r.v = a.v
    [] a.k = "fn" -> t.k = "fn" /\ a.v = t.v
    [] OTHER -> a.k = t.k

\* number of tokens that the slice with parts v takes at j, 0: no such slice here
IxAt(s, ts, j, part) == IF part = <<>> THEN 0 ELSE IF ts[j].k = "index" /\ PInt(s, ts[j].lo + 1).v = part[1] THEN 1 ELSE -1
SliceAt(s, ts, j, v) ==
  LET a == IxAt(s, ts, j, v[1]) IN
  IF a < 0 \/ ts[j + a].k # ":" THEN 0
  ELSE LET b == IxAt(s, ts, j + a + 1, v[2]) IN
       IF b < 0 THEN 0
       ELSE LET k == j + a + 1 + b IN
            IF ts[k].k # ":" THEN (IF v[3] = <<>> THEN k - j ELSE 0)
            ELSE LET c == IxAt(s, ts, k + 1, v[3]) IN IF c < 0 THEN 0 ELSE k + 1 + c - j

RECURSIVE NextLeaf(_, _)
NextLeaf(as, i) == IF i > Len(as) THEN 0 ELSE IF as[i].k = "comp" THEN NextLeaf(as, i + 1) ELSE i

RECURSIVE WalkAnchors(_, _, _, _, _)
\* 0 if the anchors as[i..] are tied to the tokens ts[j..], else the first that is not
WalkAnchors(s, as, i, ts, j) ==
  IF i > Len(as) THEN (IF j = Len(ts) /\ ts[j].k = "eoq" THEN 0 ELSE Len(as) + 1)
  ELSE IF j > Len(ts) THEN i
  ELSE LET a == as[i] t == ts[j] IN
    CASE a.k = "comp" -> LET h == NextLeaf(as, i) IN IF h # 0 /\ a.lo = as[h].lo /\ a.hi = as[h].hi THEN WalkAnchors(s, as, i + 1, ts, j) ELSE i
      [] t.k = "," -> WalkAnchors(s, as, i, ts, j + 1)
      [] a.k = "seg" -> IF ~SameSpan(a, t) THEN i
                        ELSE IF t.k = "[" THEN WalkAnchors(s, as, i + 1, ts, j + 1)
                        ELSE IF t.k \in {"name", "*"} THEN WalkAnchors(s, as, i + 1, ts, j) ELSE i
      [] a.k = ".." -> IF t.k # ".." \/ ~SameSpan(a, t) THEN i
                       ELSE WalkAnchors(s, as, i + 1, ts, IF ts[j + 1].k = "[" THEN j + 2 ELSE j + 1)
      [] a.k = "slice" -> LET n == SliceAt(s, ts, j, a.v) IN
                          IF n = 0 \/ ~SameSpan(a, t) THEN i ELSE WalkAnchors(s, as, i + 1, ts, j + n)
      [] OTHER -> IF IsToken(s, a, t) /\ SameSpan(a, t) THEN WalkAnchors(s, as, i + 1, ts, j + 1) ELSE i

\* the first token is the root of the query
Anchored(s, as, ts) == IF Kept(ts)[1].k # "$" THEN -1 ELSE WalkAnchors(s, as, 1, Kept(ts), 2)

\* --- spans of errors ----------------------------------------------------------
Inside(x, t) == t.lo <= x.lo /\ x.hi <= t.hi
ErrorDefects(s, e, ts, lex) ==
  LET within == {j \in DOMAIN ts : Inside(e, ts[j])} IN
  IF ~InBounds(s, e) THEN {"the span of an error is out of bounds or splits a character"}
  ELSE (IF within = {} THEN {"an error is not at a token"} ELSE {})
       \cup (IF lex.ok = 0 /\ (e.lo # lex.lo \/ e.hi # lex.hi) THEN {"an error of the lexer moved"} ELSE {})
       \* an unknown function is named
       \cup (IF e.kind = "name" /\ ~\E j \in DOMAIN ts : ts[j].k = "fn" /\ SameSpan(e, ts[j]) /\ FnSig(ts[j].v, Std).r = "?"
             THEN {"a name error is not at an unknown function"} ELSE {})
       \* a type error is at a call, a query or a literal
       \cup (IF e.kind = "type" /\ ~\E j \in DOMAIN ts : SameSpan(e, ts[j]) /\ ts[j].k \in {"fn", "@", "$", "int", "float", "sq", "dq", "true", "false", "null", "!"}
             THEN {"a type error is not at an operand"} ELSE {})
=============================================================================
