---------------------------- MODULE SkopsEstimatorTrace ----------------------------
(* The life of a real estimator and of its reloaded copies, against SkopsEstimator. *)
(*  new   [foreign]   parts that are not trusted by default (empty: none)          *)
(*  step  [s, a, b]   fit, set or clone: what came of it on the estimator (a) and, *)
(*                    once there is a copy, on the copy (b)                        *)
(*  dump  [out, may]  ok, refused, raised; may: is a refusal documented            *)
(*  report [names]    get_untrusted_types                                          *)
(*  load0 [out]       load without a trusted list                                  *)
(*  load  [out]       load with the reported types trusted                         *)
(*  same  [what, ok]  parameters / the whole state of estimator and copy           *)
(*  call  [fn, a, b, stable]  digests of the outputs; stable: the estimator        *)
(*                    repeats its own output, also when copied by pickle           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, phase, default
Ev == Traces[t].ev[i + 1]
Clause(ok, name) == IF ok THEN {} ELSE {name}
Enabled(e) ==
  CASE e.op = "new" -> phase = "compose"
    [] e.op = "dump" -> phase \in {"made", "loaded"}
    [] e.op \in {"report", "load0", "load"} -> phase = "dumped"
    [] e.op \in {"same", "call"} -> phase = "loaded"
    [] e.op = "step" -> phase \in {"made", "loaded"}
    [] OTHER -> FALSE
Verdict(e) ==
  IF ~Enabled(e) THEN {"not-a-behaviour"}
  ELSE CASE e.op = "dump" -> Clause(e.out = "ok" \/ (e.out = "refused" /\ e.may), "dumps")
         [] e.op = "report" -> Clause(default => e.names = <<>>, "default-parts-reported")
         [] e.op = "load0" -> Clause(default => e.out = "ok", "loads-without-trusted")
         [] e.op = "load" -> Clause(e.out = "ok", "loads")
         [] e.op = "step" -> Clause(phase = "loaded" => e.a = e.b, "same-step")
         [] e.op = "same" -> Clause(e.ok, e.what)
         [] e.op = "call" -> Clause(e.stable => e.a = e.b, "same-output")
         [] OTHER -> {}
After(e) == CASE e.op = "new" -> "made" [] e.op = "dump" -> "dumped" [] e.op = "load" -> "loaded" [] OTHER -> phase
TraceInit == t \in DOMAIN Traces /\ i = 0 /\ phase = "compose" /\ default = FALSE
TraceNext ==
  /\ i < Len(Traces[t].ev) /\ i' = i + 1 /\ t' = t
  /\ phase' = After(Ev)
  /\ default' = IF Ev.op = "new" THEN Ev.foreign = <<>> ELSE default
  /\ LET bad == Verdict(Ev) IN
     bad # {} => PrintT("@@" \o ToJson([t |-> t, i |-> i + 1, bad |-> bad]))
TraceSpec == TraceInit /\ [][TraceNext]_<<t, i, phase, default>>
=============================================================================
