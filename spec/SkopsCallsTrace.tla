-------------------------- MODULE SkopsCallsTrace ----------------------------
(* Recorded calls against SkopsCalls. Results are digests; the ones of Pure   *)
(* were recorded from the same call as the first of a process (`pure`).       *)
(*  call [pure, got]          a call of a history or of a schedule            *)
(*  card [c, pure, cards]     an operation on card c, the digests of all      *)
(*                            cards afterwards                                *)
(*  new  [c, pure, cards]     a card was made                                 *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, cards
Ev == Traces[t].ev[i + 1]
After(e) == IF e.op = "call" THEN cards
            ELSE IF e.op = "new" THEN Append(cards, e.pure)
            ELSE [cards EXCEPT ![e.c] = e.pure]
Verdict(e) ==
  (IF e.op = "call" /\ e.got # e.pure THEN {"result-depends-on-other-calls"} ELSE {})
  \cup (IF e.op # "call" /\ e.cards[e.c] # e.pure THEN {"card-depends-on-other-calls"} ELSE {})
  \cup (IF \E c \in DOMAIN e.cards : c # e.c /\ e.cards[c] # After(e)[c]
        THEN {"card-changed-by-other-card"} ELSE {})
TraceInit == t \in DOMAIN Traces /\ i = 0 /\ cards = <<>>
TraceNext == /\ i < Len(Traces[t].ev) /\ i' = i + 1 /\ t' = t /\ cards' = After(Ev)
             /\ LET bad == Verdict(Ev) IN
                bad # {} => PrintT("@@" \o ToJson([t |-> t, i |-> i + 1, bad |-> bad]))
TraceSpec == TraceInit /\ [][TraceNext]_<<t, i, cards>>
=============================================================================
