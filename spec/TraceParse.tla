----------------------------- MODULE TraceParse -----------------------------
(***************************************************************************)
(* Validation of recorded parser runs.  Every line of the trace is one     *)
(* text and what the parsers made of it; the specification step for it is  *)
(* Judge.  The lines are dealt out to NCH independent readers so that TLC  *)
(* can use all cores; a reader consumes one line per step.                 *)
(*                                                                         *)
(* Line: id, q (text), f (property this text was made for, or ""),         *)
(* x (extra mode, a sequence of 0 or 1 record [fns, lo, hi]), obs: a       *)
(* sequence of observations [w, ok, kind, ast, sing, empty, disp, re]: w   *)
(* lists the parsers that behaved this way, ast ... re are sequences of 0  *)
(* or 1 element (syntax tree, is_singular, is_empty, printed form, and     *)
(* what the same parser made of the printed form: [ok, ast, disp]).        *)
(*                                                                         *)
(* A mismatch is [p, w, what, d]: the property it breaks, the parsers, what*)
(* and details.                                                            *)
(***************************************************************************)
EXTENDS Syntax, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NCH == 32

VARIABLES ch, pos

ModeOf(r) == IF r.x = <<>> THEN Std ELSE [ext |-> FALSE, lo |-> r.x[1].lo, hi |-> r.x[1].hi, fns |-> StdFns \o r.x[1].fns]

Has(w, c) == \E j \in DOMAIN w : w[j] = c

Bad(ps, o, what, d) == {[p |-> p, w |-> o.w, what |-> what, d |-> d] : p \in ps \ {""}}

\* --- strings and numbers of a tree, in order ----------------------------------
RECURSIVE AtomsQ(_, _), AtomsX(_, _), AtomsXs(_, _, _), AtomsSels(_, _, _)
AtomsSels(sels, h, kind) ==
  IF h > Len(sels) THEN <<>>
  ELSE (LET x == sels[h] IN
        CASE x.k = "name" -> IF kind = "str" THEN <<x.name>> ELSE <<>>
          [] x.k = "index" -> IF kind = "num" THEN <<x.idx>> ELSE <<>>
          [] x.k = "slice" -> IF kind = "num" THEN <<x.a, x.b, x.c>> ELSE <<>>
          [] x.k = "filter" -> AtomsX(x.x, kind)
          [] x.k = "sq" -> AtomsQ(x.q, kind)
          [] OTHER -> <<>>) \o AtomsSels(sels, h + 1, kind)
AtomsQ(q, kind) == IF q = <<>> THEN <<>> ELSE AtomsSels(q[1].sels, 1, kind) \o AtomsQ(Tail(q), kind)
AtomsXs(xs, j, kind) == IF j > Len(xs) THEN <<>> ELSE AtomsX(xs[j], kind) \o AtomsXs(xs, j + 1, kind)
AtomsX(x, kind) ==
  CASE x.k = "str" -> IF kind = "str" THEN <<x.str>> ELSE <<>>
    [] x.k = "num" -> IF kind = "num" THEN <<x.num>> ELSE <<>>
    [] x.k \in {"or", "and"} -> AtomsXs(x.xs, 1, kind)
    [] x.k = "not" -> AtomsX(x.x, kind)
    [] x.k = "cmp" -> AtomsX(x.l, kind) \o AtomsX(x.r, kind)
    [] x.k \in {"rel", "abs"} -> AtomsQ(x.q, kind)
    [] x.k = "fn" -> AtomsXs(x.args, 1, kind)
    [] OTHER -> <<>>

RECURSIVE CallsX(_), CallsQ(_)
CallsQ(q) == \E j \in DOMAIN q : \E h \in DOMAIN q[j].sels : q[j].sels[h].k = "filter" /\ CallsX(q[j].sels[h].x)
CallsX(x) ==
  CASE x.k = "fn" -> TRUE
    [] x.k \in {"or", "and"} -> \E j \in DOMAIN x.xs : CallsX(x.xs[j])
    [] x.k \in {"not", "paren"} -> CallsX(x.x)
    [] x.k = "cmp" -> CallsX(x.l) \/ CallsX(x.r)
    [] x.k \in {"rel", "abs"} -> CallsQ(x.q)
    [] OTHER -> FALSE

\* --- one observation against judgement j ---------------------------------------
Acceptance(o, j, f) ==
  LET valid == j.wf /\ j.faults = {}
      c02 == IF j.wf /\ CallsQ(j.v) THEN "C02" ELSE "" IN
  CASE o.ok = 1 /\ ~j.wf -> Bad({"C01", f}, o, "accepted, not well-formed", "")
    [] o.ok = 1 /\ j.faults \cap {"nonsingular", "blank"} # {} -> Bad({"C01", f}, o, "accepted, not a singular query", j.faults)
    [] o.ok = 1 /\ ~valid -> Bad({"C02"}, o, "accepted, not well-typed", j.faults)
    [] o.ok = 0 /\ valid -> Bad({"C01", c02, f}, o, "rejected, valid", o.kind)
    [] o.ok = 0 /\ j.wf /\ j.faults = {"name"} /\ o.kind # "name" -> Bad({"C02"}, o, "not a name error", o.kind)
    [] o.ok = 0 /\ j.wf /\ j.faults = {"type"} /\ o.kind # "type" -> Bad({"C02"}, o, "not a type error", o.kind)
    [] o.ok = 0 /\ j.wf /\ j.faults = {"name", "type"} /\ o.kind \notin {"name", "type"} ->
         Bad({"C02"}, o, "neither name nor type error", o.kind)
    \* the hand-written parser reports the first fault that it comes to
    [] o.ok = 0 /\ ~j.wf /\ o.kind # "syntax" -> Bad({"C02"}, [o EXCEPT !.w = SelectSeq(o.w, LAMBDA c : c # "A")], "not a syntax error", o.kind)
    [] OTHER -> {}

TreeAgrees(o, tree) ==
  IF o.ok # 1 \/ o.ast = <<>> THEN {}
  ELSE LET a == o.ast[1] IN
       IF a = tree THEN {}
       ELSE Bad({"C03",
                 IF AtomsQ(a, "str") # AtomsQ(tree, "str") THEN "C04" ELSE "",
                 IF AtomsQ(a, "num") # AtomsQ(tree, "num") THEN "C05" ELSE ""}, o, "different tree", "")

Classes(o, v) ==
  IF o.ok # 1 THEN {}
  ELSE (IF o.sing # <<>> /\ o.sing[1] # SingularShape(v) THEN Bad({"C21"}, o, "is_singular", o.sing[1]) ELSE {})
       \cup (IF o.empty # <<>> /\ o.empty[1] # (v = <<>>) THEN Bad({"C21"}, o, "is_empty", o.empty[1]) ELSE {})

\* The printed form denotes the tree that was parsed, and printing is idempotent.
Printing(o, tree, m) ==
  IF o.ok # 1 \/ o.disp = <<>> THEN {}
  ELSE LET j == Judge(o.disp[1], m)
           was == IF o.ast # <<>> THEN o.ast[1] ELSE tree
           re == o.re[1] IN
       (IF ~j.wf \/ j.faults # {} THEN Bad({"C06"}, o, "printed form is not a query", j.faults)
        ELSE IF StepQ(StripQ(j.v)) # StepQ(was) THEN Bad({"C06"}, o, "printed form denotes another query", "") ELSE {})
       \cup (IF re.ok # 1 THEN Bad({"C06"}, o, "printed form is rejected", "")
             ELSE IF re.disp # o.disp[1] THEN Bad({"C06"}, o, "printing again differs", "")
             ELSE IF [j2 \in DOMAIN re.ast |-> StepQ(re.ast[j2])] # [j2 \in DOMAIN o.ast |-> StepQ(o.ast[j2])] THEN Bad({"C06"}, o, "printed form parses to another tree", "") ELSE {})

Against(o, j, tree, f, m) ==
  LET a == Acceptance(o, j, f) IN
  a \cup (IF a = {} /\ o.ok = 1 THEN TreeAgrees(o, tree) \cup Classes(o, j.v) ELSE {}) \cup
  (IF o.ok = 1 THEN Printing(o, tree, m) ELSE {})

Check(r) ==
  LET m == ModeOf(r)
      j == Judge(r.q, m)
      gm == [m EXCEPT !.ext = TRUE]
      g == IF j.wf THEN j ELSE Judge(r.q, gm)
      tree == IF j.wf THEN StripQ(j.v) ELSE <<>>
      gtree == IF j.wf THEN tree ELSE IF g.wf THEN StripQ(g.v) ELSE <<>>
      gf == IF r.f = "" /\ g.wf /\ ~j.wf THEN "C19" ELSE r.f
  IN UNION {IF Has(r.obs[k].w, "G") THEN Against(r.obs[k], g, gtree, gf, gm) ELSE Against(r.obs[k], j, tree, r.f, m)
            : k \in DOMAIN r.obs}

Report(r) ==
  LET bad == Check(r) IN
  IF bad = {} THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([id |-> r.id, bad |-> bad]))

Init == ch \in 1..NCH /\ pos = 0
Next == /\ pos * NCH + ch <= Len(Trace)
        /\ Report(Trace[pos * NCH + ch])
        /\ pos' = pos + 1
        /\ ch' = ch
Spec == Init /\ [][Next]_<<ch, pos>>
=============================================================================
