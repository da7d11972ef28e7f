---------------------------- MODULE SkopsCorruptTrace ----------------------------
(* Reading damaged archives with the real code, in processes of their own.       *)
(*  run [fn, out, ordinary, files, changed, slow]                                *)
(*      out: ok, raise (what was raised is an ordinary exception or not), died,  *)
(*      hung; files: created or written; changed: the process-wide state that is *)
(*      another than before                                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i
Ev == Traces[t].ev[i + 1]
Clause(ok, name) == IF ok THEN {} ELSE {name}
Verdict(e) ==
  Clause(e.out # "died", "crashes")
  \cup Clause(e.out # "hung", "does-not-terminate-promptly")
  \cup Clause(e.out # "raise" \/ e.ordinary, "ordinary-exception")
  \cup Clause(e.files = <<>>, "creates-files")
  \cup Clause(e.changed = <<>>, "changes-process-state")
TraceInit == t \in DOMAIN Traces /\ i = 0
TraceNext ==
  /\ i < Len(Traces[t].ev) /\ i' = i + 1 /\ t' = t
  /\ LET bad == Verdict(Ev) IN
     bad # {} => PrintT("@@" \o ToJson([t |-> t, i |-> i + 1, bad |-> bad]))
TraceSpec == TraceInit /\ [][TraceNext]_<<t, i>>
=============================================================================
