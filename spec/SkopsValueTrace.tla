---------------------------- MODULE SkopsValueTrace ----------------------------
(* Round trips recorded from the real code.                                    *)
(*  value [desc]            the value the next events are about, as described  *)
(*                          by its generator                                   *)
(*  dump  [out, before, after]   terms of the object before and after dumping  *)
(*  load  [out, got]        the term of what the archive loads to              *)
(*  again [out, got]        the term after dumping and loading this once more  *)
EXTENDS SkopsValue, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, desc, before, dumped
Ev == Traces[t].ev[i + 1]
Clause(ok, name) == IF ok THEN {} ELSE {name}
NoValue == Mk("unknown", "", <<>>)

Verdict(e) ==
  LET sup == Supported(desc) IN
  CASE e.op = "value" -> {}
    [] e.op = "dump" -> Clause(e.after = e.before, "dump-modifies")
                        \cup Clause(~sup \/ e.out = "ok", "supported-dumps")
    [] e.op = "load" -> IF ~dumped THEN {}
                        ELSE Clause(e.out # "ok" \/ e.got = before, "quietly-different")
                             \cup Clause(~sup \/ e.out = "ok", "supported-loads")
                             \cup Clause(~sup \/ e.out # "ok" \/ e.got = before, "supported-same")
    [] e.op = "again" -> Clause(~sup \/ e.out = "ok", "supported-loads-again")
                         \cup Clause(~sup \/ e.out # "ok" \/ e.got = before, "supported-same-again")

TraceInit == /\ t \in DOMAIN Traces /\ i = 0 /\ desc = NoValue /\ before = NoValue /\ dumped = FALSE
TraceNext ==
  /\ i < Len(Traces[t].ev) /\ i' = i + 1 /\ t' = t
  /\ desc' = (IF Ev.op = "value" THEN Ev.desc ELSE desc)
  /\ before' = (IF Ev.op = "dump" THEN Ev.before ELSE before)
  /\ dumped' = (IF Ev.op = "dump" THEN Ev.out = "ok" ELSE dumped)
  /\ LET bad == Verdict(Ev) IN
     bad # {} => PrintT("@@" \o ToJson([t |-> t, i |-> i + 1, bad |-> bad]))
TraceSpec == TraceInit /\ [][TraceNext]_<<t, i, desc, before, dumped>>
=============================================================================
