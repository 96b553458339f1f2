--------------------------- MODULE StringMachine ---------------------------
(***************************************************************************)
(* Reading a string literal character by character: an automaton with the  *)
(* states of section 2.3.1.1.  It reads bodies assembled from pieces, for  *)
(* both quotes at once, and is checked against the recogniser of Syntax:   *)
(* the body is a string exactly when the automaton rests in "plain", and   *)
(* then both denote the same characters.                                   *)
(***************************************************************************)
EXTENDS Syntax, TLC, Json, IOUtils

MaxPieces == atoi(IOEnv.MAXPIECES)

Pieces == << <<97>>, <<BS>>, <<117>>, <<SQ>>, <<DQ>>, <<110>>, <<BS, 117>>, <<48, 48, 52, 49>>, <<68, 56, 51, 68>>,
             <<68, 69, 48, 48>>, <<100, 99, 48, 48>>, <<10>>, <<47>>, <<128512>>, <<103>> >>

\* automaton state: mode, hex digits read so far (value), pending high surrogate
Start == [m |-> "plain", n |-> 0, v |-> 0, hi |-> 0, out |-> <<>>]
Dead == [Start EXCEPT !.m = "dead"]

Escape(x, q) ==
  CASE x = q -> q [] x = 98 -> 8 [] x = 102 -> 12 [] x = 110 -> 10 [] x = 114 -> 13
    [] x = 116 -> 9 [] x = 47 -> 47 [] x = BS -> BS [] OTHER -> -1

Read(a, c, q) ==
  CASE a.m = "plain" ->
         IF c = BS THEN [a EXCEPT !.m = "esc"]
         ELSE IF c = q \/ c < 32 THEN Dead
         ELSE [a EXCEPT !.out = Append(a.out, c)]
    [] a.m = "esc" ->
         IF c = 117 THEN [a EXCEPT !.m = "hex", !.n = 0, !.v = 0]
         ELSE IF Escape(c, q) < 0 THEN Dead
         ELSE [a EXCEPT !.m = "plain", !.out = Append(a.out, Escape(c, q))]
    [] a.m = "hex" ->
         IF HexVal(c) < 0 THEN Dead
         ELSE LET v == a.v * 16 + HexVal(c) IN
              IF a.n < 3 THEN [a EXCEPT !.n = a.n + 1, !.v = v]
              ELSE CASE a.hi > 0 /\ IsLow(v) ->
                          [a EXCEPT !.m = "plain", !.hi = 0, !.out = Append(a.out, 65536 + (a.hi - 55296) * 1024 + (v - 56320))]
                     [] a.hi > 0 -> Dead
                     [] IsHigh(v) -> [a EXCEPT !.m = "low", !.hi = v]
                     [] IsLow(v) -> Dead
                     [] OTHER -> [a EXCEPT !.m = "plain", !.out = Append(a.out, v)]
    [] a.m = "low" -> IF c = BS THEN [a EXCEPT !.m = "lowu"] ELSE Dead
    [] a.m = "lowu" -> IF c = 117 THEN [a EXCEPT !.m = "hex", !.n = 0, !.v = 0] ELSE Dead
    [] OTHER -> Dead

RECURSIVE ReadAll(_, _, _)
ReadAll(a, cs, q) == IF cs = <<>> THEN a ELSE ReadAll(Read(a, cs[1], q), Tail(cs), q)

VARIABLES body, n, s1, s2
vars == <<body, n, s1, s2>>
Init == body = <<>> /\ n = 0 /\ s1 = Start /\ s2 = Start
Next ==
  /\ n < MaxPieces
  /\ ~(s1.m = "dead" /\ s2.m = "dead")
  /\ \E j \in DOMAIN Pieces :
       /\ body' = body \o Pieces[j]
       /\ s1' = ReadAll(s1, Pieces[j], SQ)
       /\ s2' = ReadAll(s2, Pieces[j], DQ)
  /\ n' = n + 1
  /\ PrintT("BODY " \o ToJson(body'))
Spec == Init /\ [][Next]_vars

Agrees(a, q) ==
  LET r == StrBody(<<q>> \o body \o <<q>>, 2, q, <<>>)
      whole == r.ok /\ r.i = Len(body) + 3 IN
  IF a.m = "plain" THEN whole /\ r.v = a.out ELSE ~whole
Sound == Agrees(s1, SQ) /\ Agrees(s2, DQ)
=============================================================================
