----------------------------- MODULE TraceLex -----------------------------
(***************************************************************************)
(* Validation of recorded runs of the lexer and of the spans the parser    *)
(* gives.  A line is [id, q, r], r = [toks, lex, tree] with lex = [ok, n,  *)
(* lo, hi] what lex() made of the tokens, and tree = [ok, anchors, kind,   *)
(* lo, hi].                                                                *)
(***************************************************************************)
EXTENDS Lexical, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NCH == 32
VARIABLES ch, pos

Check(r) ==
  LET ts == r.r.toks lex == r.r.lex tree == r.r.tree n == Len(ts)
      til == TilingDefects(r.q, ts) IN
  til
  \cup (IF n > 0 /\ ts[n].k = "error"
        THEN IF lex.ok = 1 THEN {"lex() succeeds on an error token"}
             ELSE IF lex.lo # ts[n].lo \/ lex.hi # ts[n].hi THEN {"lex() moves the error"} ELSE {}
        ELSE IF lex.ok = 0 THEN {"lex() fails without an error token"}
             ELSE IF lex.n # n THEN {"lex() gives other tokens than tokenize()"} ELSE {})
  \cup (IF til # {} THEN {}
        ELSE IF tree.ok = 0 THEN ErrorDefects(r.q, tree, ts, lex)
        ELSE IF ts[n].k = "error" THEN {"a tree in spite of an error token"}
        ELSE IF \E j \in DOMAIN tree.anchors : ~InBounds(r.q, tree.anchors[j]) THEN {"the span of a construct is out of bounds or splits a character"}
        ELSE IF Anchored(r.q, tree.anchors, ts) # 0 THEN {"a construct is not at its text"} ELSE {})

Report(r) ==
  LET bad == Check(r) IN
  IF bad = {} THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([id |-> r.id, bad |-> bad]))

Init == ch \in 1..NCH /\ pos = 0
Next == /\ pos * NCH + ch <= Len(Trace)
        /\ Report(Trace[pos * NCH + ch])
        /\ pos' = pos + 1
        /\ ch' = ch
Spec == Init /\ [][Next]_<<ch, pos>>
=============================================================================
