--------------------------- MODULE NumberMachine ---------------------------
(***************************************************************************)
(* Reading a number character by character, accumulating its value by      *)
(* arithmetic on Num; every text up to MaxLen over the characters of       *)
(* numbers.  Checked against PNumber and PInt of Syntax: same texts, same  *)
(* value.                                                                  *)
(***************************************************************************)
EXTENDS Syntax, TLC, Json, IOUtils

MaxLen == atoi(IOEnv.MAXLEN)
Alpha == {48, 49, 50, 45, 43, 46, 101, 69}

\* int: digits so far as an integer mant, sc digits after the point, ex the
\* exponent so far
Start == [m |-> "start", neg |-> 0, d |-> <<>>, sc |-> 0, en |-> 0, ex |-> 0]
To(a, m) == [a EXCEPT !.m = m]
Dig(a, c) == [a EXCEPT !.d = Append(a.d, c - 48)]

Read(a, c) ==
  LET dead == To(a, "dead") IN
  CASE a.m = "start" -> IF c = 45 THEN [To(a, "sign") EXCEPT !.neg = 1]
                        ELSE IF c = 48 THEN To(a, "zero") ELSE IF IsDigit(c) THEN To(Dig(a, c), "int") ELSE dead
    [] a.m = "sign" -> IF c = 48 THEN To(a, "zero") ELSE IF IsDigit(c) THEN To(Dig(a, c), "int") ELSE dead
    [] a.m \in {"zero", "int"} ->
         IF c = 46 THEN To(a, "point") ELSE IF c \in {101, 69} THEN To(a, "e")
         ELSE IF a.m = "int" /\ IsDigit(c) THEN Dig(a, c) ELSE dead
    [] a.m \in {"point", "frac"} ->
         IF IsDigit(c) THEN [To(Dig(a, c), "frac") EXCEPT !.sc = a.sc + 1]
         ELSE IF a.m = "frac" /\ c \in {101, 69} THEN To(a, "e") ELSE dead
    [] a.m = "e" -> IF c = 45 THEN [To(a, "esign") EXCEPT !.en = 1]
                    ELSE IF c = 43 THEN To(a, "esign") ELSE IF IsDigit(c) THEN [To(a, "exp") EXCEPT !.ex = c - 48] ELSE dead
    [] a.m \in {"esign", "exp"} -> IF IsDigit(c) THEN [To(a, "exp") EXCEPT !.ex = a.ex * 10 + c - 48] ELSE dead
    [] OTHER -> dead

Value(a) == Norm(a.neg, a.d, (IF a.en = 1 THEN 0 - a.ex ELSE a.ex) - a.sc)
IsNumber(a) == a.m \in {"zero", "int", "frac", "exp"}
IsInt(a) == a.m \in {"zero", "int"} /\ ~(a.m = "zero" /\ a.neg = 1)

VARIABLES text, st
Init == text = <<>> /\ st = Start
Next ==
  /\ Len(text) < MaxLen
  /\ st.m # "dead"
  /\ \E c \in Alpha : text' = Append(text, c) /\ st' = Read(st, c)
  /\ PrintT("NUMBER " \o ToJson(text'))
Spec == Init /\ [][Next]_<<text, st>>

Sound ==
  LET n == PNumber(text, 1)
      i == PInt(text, 1)
      whole(r) == r.ok /\ r.i = Len(text) + 1 IN
  text # <<>> =>
    /\ IsNumber(st) = whole(n)
    /\ IsNumber(st) => n.v = Value(st)
    /\ IsInt(st) = whole(i)
    /\ IsInt(st) => i.v = Value(st)
=============================================================================
