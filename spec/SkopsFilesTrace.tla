--------------------------- MODULE SkopsFilesTrace ----------------------------
(* Events of real runs:                                                       *)
(*  run     [cfg, out, inp, dest, residue]   what a command left behind       *)
(*  convert [cfg, ..., default, inpath, outname, untrusted, nwarn, listed]    *)
(*  dump    [ctx, leaf, out, same, partial]  a dump of a value into a sink    *)
EXTENDS SkopsFiles, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i
Ev == Traces[t].ev[i + 1]
RunVerdict(e) ==
  LET c == e.cfg IN
  (IF e.inp \in InputMay(c) THEN {} ELSE {"input-altered"})
  \cup (IF e.dest \in DestMay(c) THEN {} ELSE {"destination"})
  \cup (IF c.fault = "kill" \/ e.out \in OutMay(c) THEN {} ELSE {"outcome"})
  \cup (IF c.fault # "kill" /\ e.residue THEN {"temporary-files-remain"} ELSE {})
Verdict(e) ==
  CASE e.op = "run" -> RunVerdict(e)
    [] e.op = "convert" ->
         RunVerdict(e)
         \cup (IF e.cfg.persist /\ e.out = "ok" /\ e.default /\ e.outname # DefaultName(e.inpath)
               THEN {"default-output-name"} ELSE {})
         \cup (IF e.out = "ok" /\ e.cfg.persist /\ ((e.untrusted = {}) # (e.nwarn = 0))
               THEN {"warns-iff-untrusted"} ELSE {})
         \cup (IF e.out = "ok" /\ e.cfg.persist /\ \E x \in e.untrusted : x \notin e.listed
               THEN {"warning-lists-types"} ELSE {})
    [] e.op = "dump" ->
         IF Persistable(e.ctx, e.leaf)
         THEN (IF e.out = "ok" THEN {} ELSE {"dump-of-fine-value-raised"})
         ELSE (IF e.out = "raised" THEN {} ELSE {"unsupported-value-dumped"})
              \cup (IF e.same THEN {} ELSE {"destination-touched-by-failed-dump"})
ToSet(s) == {s[j] : j \in DOMAIN s}
Norm(e) == IF e.op = "convert" THEN [e EXCEPT !.untrusted = ToSet(e.untrusted),
                                              !.listed = ToSet(e.listed)] ELSE e
TraceInit == t \in DOMAIN Traces /\ i = 0
TraceNext == /\ i < Len(Traces[t].ev) /\ i' = i + 1 /\ t' = t
             /\ LET bad == Verdict(Norm(Ev)) IN
                bad # {} => PrintT("@@" \o ToJson([t |-> t, i |-> i + 1, bad |-> bad]))
TraceSpec == TraceInit /\ [][TraceNext]_<<t, i>>
=============================================================================
