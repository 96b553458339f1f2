----------------------------- MODULE AbnfAgree -----------------------------
(***************************************************************************)
(* Agreement of recogniser and grammar on every text of up to LEN tokens   *)
(* in every context.                                                       *)
(***************************************************************************)
EXTENDS Agreement, TLC, Json, IOUtils

MaxLen == atoi(IOEnv.LEN)
\* [lang, contexts: <<before, after>> each, tokens], all of them texts
Setup == ndJsonDeserialize(IOEnv.SETUP)[1]
VARIABLES ctx, text, n

Init == ctx \in DOMAIN Setup.contexts /\ text = <<>> /\ n = 0
Next == /\ n < MaxLen
        /\ \E t \in DOMAIN Setup.tokens : text' = text \o Setup.tokens[t]
        /\ n' = n + 1
        /\ UNCHANGED ctx
Spec == Init /\ [][Next]_<<ctx, text, n>>
Agree == AgreeOn(Setup.lang, Setup.contexts[ctx][1] \o text \o Setup.contexts[ctx][2])
=============================================================================
