-------------------------- MODULE SkopsParserTrace ---------------------------
(* Events:                                                                    *)
(*  parse   [doc, out, secs, lines]     secs/lines: what the real parser made *)
(*  conv    [first, again, fresh, toks, leaves, texty]  one element converted *)
(*          by a mapper with a history, again, and by a pristine process      *)
(*  reparse [a, b]   outlines of a parsed card and of its re-parsed rendering *)
EXTENDS SkopsParser, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i
Ev == Traces[t].ev[i + 1]
Verdict(e) ==
  CASE e.op = "parse" ->
    LET x == Parse(St0, e.doc) IN
    (IF e.out # x.out THEN {"parse-outcome"} ELSE {})
    \cup (IF e.out # "ok" \/ x.out # "ok" THEN {}
          ELSE (IF Outline(e.secs) # Outline(x.secs) THEN {"outline"} ELSE {})
               \cup (IF Outline(e.secs) = Outline(x.secs) /\ e.secs # x.secs
                     THEN {"blocks-once-in-order"} ELSE {})
               \cup (IF e.secs = x.secs /\ ~MatchOutline(x.secs, e.lines)
                     THEN {"render-reproduces-outline"} ELSE {}))
  [] e.op = "conv" ->
    (IF e.first # e.again \/ e.first # e.fresh THEN {"conversion-depends-on-history"} ELSE {})
    \cup (IF e.texty /\ e.toks # e.leaves THEN {"content-lost-or-reordered"} ELSE {})
    \cup (IF e.texty /\ e.elem.t # "" /\ ~SaysWhat(SubSeq(e.first, 4, Len(e.first)), e.elem)
          THEN {"content-of-element"} ELSE {})
  [] e.op = "reparse" -> IF e.a # e.b THEN {"outline-of-rendered-card"} ELSE {}
TraceInit == t \in DOMAIN Traces /\ i = 0
TraceNext == /\ i < Len(Traces[t].ev) /\ i' = i + 1 /\ t' = t
             /\ LET bad == Verdict(Ev) IN
                bad # {} => PrintT("@@" \o ToJson([t |-> t, i |-> i + 1, bad |-> bad]))
TraceSpec == TraceInit /\ [][TraceNext]_<<t, i>>
=============================================================================
