----------------------------- MODULE RegexCache -----------------------------
(***************************************************************************)
(* The pattern caches of the evaluators as a state machine, used by one or *)
(* several threads.  match and search each have a lock and a cache of at   *)
(* most CAP compiled patterns, least recently used last.  A call computes  *)
(* its arguments, which may call match or search again, takes the lock of  *)
(* its function, answers from the cache or compiles (an invalid pattern is *)
(* answered without being kept), and gives the lock back.                  *)
(*                                                                         *)
(* Answers(c) is what is answered: a compiled pattern is represented by    *)
(* [fn, pat] it was compiled for, so "the answer does not depend on the    *)
(* history" is the invariant Right: every answer is by the function and    *)
(* pattern of its own call.  Checked: Right, Sound (what a cache may       *)
(* contain), freedom from deadlock (by TLC), and that every call gets its  *)
(* answer (Served, under weak fairness).                                   *)
(*                                                                         *)
(* With one thread, every complete history is printed; the check replays   *)
(* it in the real code, a pattern of the model standing for a block of 50  *)
(* real patterns so that two of them fill the real caches.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cap == atoi(IOEnv.CAP)
Pats == 1..atoi(IOEnv.PATS)
Bad == 0                                    \* an invalid pattern
Threads == 1..atoi(IOEnv.THREADS)
Calls == atoi(IOEnv.CALLS)                  \* calls to be made, by all threads
Fns == {"m", "s"}
Inner == IF IOEnv.NESTED = "1" THEN {"-", "m", "s"} ELSE {"-"}

\* a call: function, pattern, and the function its argument calls ("-": none)
CallSet == [f : Fns, p : Pats \cup {Bad}, g : Inner]

VARIABLES cache, lock, th, made, hist
vars == <<cache, lock, th, made, hist>>

\* th[t]: stack of frames, the innermost call first
Frame(f, p, st) == [f |-> f, p |-> p, st |-> st]
Entry(f, p) == [key |-> p, fn |-> f, pat |-> p]
Keys(c) == {c[j].key : j \in DOMAIN c}
Without(c, p) == SelectSeq(c, LAMBDA x : x.key # p)
Touch(c, p) == LET e == CHOOSE j \in DOMAIN c : c[j].key = p IN <<c[e]>> \o Without(c, p)
Put(c, x) == LET n == <<x>> \o Without(c, x.key) IN SubSeq(n, 1, IF Len(n) < Cap THEN Len(n) ELSE Cap)

Init == /\ cache = [f \in Fns |-> <<>>]
        /\ lock = [f \in Fns |-> 0]
        /\ th = [t \in Threads |-> <<>>]
        /\ made = 0
        /\ hist = <<>>

Start(t) ==
  /\ th[t] = <<>> /\ made < Calls
  /\ \E c \in CallSet :
       /\ th' = [th EXCEPT ![t] = (IF c.g = "-" THEN <<>> ELSE <<Frame(c.g, c.p, "want")>>) \o <<Frame(c.f, c.p, "want")>>]
       /\ hist' = IF IOEnv.THREADS = "1" THEN Append(hist, <<c.f, c.p, c.g>>) ELSE hist
  /\ made' = made + 1
  /\ UNCHANGED <<cache, lock>>

Acquire(t) ==
  /\ th[t] # <<>> /\ th[t][1].st = "want" /\ lock[th[t][1].f] = 0
  /\ lock' = [lock EXCEPT ![th[t][1].f] = t]
  /\ th' = [th EXCEPT ![t][1].st = "locked"]
  /\ UNCHANGED <<cache, made, hist>>

\* the answer, given by an entry or by nothing
Answer(t) ==
  /\ th[t] # <<>> /\ th[t][1].st = "locked"
  /\ LET x == th[t][1] c == cache[x.f] IN
     IF x.p \in Keys(c)
     THEN /\ cache' = [cache EXCEPT ![x.f] = Touch(c, x.p)]
          /\ th' = [th EXCEPT ![t][1].st = "hit"]
     ELSE IF x.p = Bad
     THEN /\ cache' = cache
          /\ th' = [th EXCEPT ![t][1].st = "invalid"]
     ELSE /\ cache' = [cache EXCEPT ![x.f] = Put(c, Entry(x.f, x.p))]
          /\ th' = [th EXCEPT ![t][1].st = "compiled"]
  /\ UNCHANGED <<lock, made, hist>>

Release(t) ==
  /\ th[t] # <<>> /\ th[t][1].st \in {"hit", "compiled", "invalid"}
  /\ lock' = [lock EXCEPT ![th[t][1].f] = 0]
  /\ th' = [th EXCEPT ![t] = Tail(@)]
  /\ IF made = Calls /\ IOEnv.THREADS = "1" /\ Len(th[t]) = 1 THEN PrintT("HISTORY " \o ToJson(hist)) ELSE TRUE
  /\ UNCHANGED <<cache, made, hist>>

Done == made = Calls /\ (\A t \in Threads : th[t] = <<>>) /\ UNCHANGED vars
Step(t) == Acquire(t) \/ Answer(t) \/ Release(t)
Next == (\E t \in Threads : Start(t) \/ Step(t)) \/ Done
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Acquire(t)) /\ WF_vars(Answer(t)) /\ WF_vars(Release(t))

\* --- properties -----------------------------------------------------------------
Sound == \A f \in Fns :
           /\ Len(cache[f]) <= Cap /\ Cardinality(Keys(cache[f])) = Len(cache[f])
           /\ \A j \in DOMAIN cache[f] : cache[f][j] = Entry(f, cache[f][j].key) /\ cache[f][j].key # Bad
\* the entry a call is about to be answered by is its own
Right == \A t \in Threads : th[t] # <<>> =>
           LET x == th[t][1] IN
           /\ x.st = "hit" => cache[x.f][1] = Entry(x.f, x.p) /\ x.p # Bad
           /\ x.st = "compiled" => cache[x.f][1] = Entry(x.f, x.p)
           /\ x.st = "invalid" => x.p = Bad
Exclusive == \A t \in Threads : \A j \in DOMAIN th[t] :
               (th[t][j].st # "want") <=> (j = 1 /\ lock[th[t][j].f] = t)
Served == \A t \in Threads : (th[t] # <<>>) ~> (th[t] = <<>>)
=============================================================================
