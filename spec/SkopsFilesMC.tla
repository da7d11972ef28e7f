---------------------------- MODULE SkopsFilesMC ------------------------------
(* The commands as processes over a file system that can die or fail at every *)
(* step: read, compare protocols, serialise in memory, write a temporary file *)
(* in chunks, replace the destination atomically, clean up.  TLC checks that  *)
(* this design satisfies the Allowed sets of SkopsFiles at every moment, and  *)
(* prints the configurations that the driver runs on the real CLI.            *)
EXTENDS SkopsFiles, Json
CONSTANTS Cmds
VARIABLES cfg, pc, inp, dest, tmp, out
vars == <<cfg, pc, inp, dest, tmp, out>>

Cfgs == {c \in [cmd: Cmds, proto: {"old", "cur", "newer"}, out: {"none", "same", "file", "nodir"},
                inplace: BOOLEAN, persist: BOOLEAN, dest0: {"absent", "prev"},
                fault: {"no"}] :
           /\ (c.cmd # "update" => c.proto = "old" /\ ~c.inplace /\ c.out = "file")
           /\ (c.out # "file" => c.dest0 = "absent")}

Init == /\ cfg \in Cfgs /\ pc = "start" /\ inp = "prev" /\ dest = cfg.dest0
        /\ tmp = "absent" /\ out = "ok"

Goto(p) == pc' = p /\ UNCHANGED <<inp, dest, tmp, cfg, out>>
Raise == pc' = "unwind" /\ out' = "raised" /\ UNCHANGED <<inp, dest, tmp, cfg>>
Start == pc = "start" /\ IF Conflict(cfg) THEN Raise ELSE Goto("read")
Read == pc = "read" /\ Goto("compare")
Compare ==
  pc = "compare" /\
  IF cfg.cmd # "update" THEN Goto("ser")
  ELSE IF cfg.proto # "old" \/ Target(cfg) = "none" THEN Goto("end")
  ELSE IF Target(cfg) = "same" /\ ~cfg.inplace THEN Raise
  ELSE Goto("ser")
Ser == pc = "ser" /\ IF ~cfg.persist THEN Raise
                     ELSE IF cfg.cmd = "update" THEN
                            (IF Target(cfg) = "nodir" THEN Raise ELSE Goto("mktmp"))
                          ELSE Goto("open")
MkTmp == pc = "mktmp" /\ pc' = "write" /\ tmp' = "other" /\ UNCHANGED <<cfg, inp, dest, out>>
Write == /\ pc = "write" /\ pc' \in {"write", "rename"}
         /\ tmp' = (IF pc' = "rename" THEN "new" ELSE "other") /\ UNCHANGED <<cfg, inp, dest, out>>
Rename == /\ pc = "rename" /\ pc' = "end" /\ tmp' = "absent"
          /\ IF Target(cfg) = "same" THEN inp' = "new" /\ dest' = dest
             ELSE dest' = "new" /\ inp' = inp
          /\ UNCHANGED <<cfg, out>>
Open == pc = "open" /\ pc' = "direct" /\ dest' = "other" /\ UNCHANGED <<cfg, inp, tmp, out>>
Direct == /\ pc = "direct" /\ pc' \in {"direct", "end"}
          /\ dest' = (IF pc' = "end" THEN "new" ELSE "other") /\ UNCHANGED <<cfg, inp, tmp, out>>
Unwind == /\ pc = "unwind" /\ pc' = "end" /\ tmp' = "absent" /\ UNCHANGED <<cfg, inp, dest, out>>
IOError == /\ pc \notin {"end", "dead", "unwind", "start"} /\ pc' = "unwind" /\ out' = "raised"
           /\ cfg' = [cfg EXCEPT !.fault = "io"] /\ UNCHANGED <<inp, dest, tmp>>
Die == /\ pc \notin {"end", "dead"} /\ pc' = "dead" /\ cfg' = [cfg EXCEPT !.fault = "kill"]
       /\ UNCHANGED <<inp, dest, tmp, out>>
Next == Start \/ Read \/ Compare \/ Ser \/ MkTmp \/ Write \/ Rename \/ Open \/ Direct \/ Unwind
        \/ IOError \/ Die
Spec == Init /\ [][Next]_vars

AtRest == pc \in {"end", "dead"}
InvInput == AtRest => inp \in InputMay(cfg)
InvDest == AtRest => dest \in DestMay(cfg)
InvOut == pc = "end" => out \in OutMay(cfg)
InvResidue == pc = "end" => tmp = "absent"
\* at any moment, not only at rest: death may follow
InvAtomic == cfg.cmd = "update" => dest \in {cfg.dest0, "new"} /\ inp \in {"prev", "new"}
InvDump == (cfg.cmd # "update" /\ ~cfg.persist) => dest = cfg.dest0
Emit == (pc = "end" /\ cfg.fault = "no") => PrintT("@@" \o ToJson([cfg |-> cfg, out |-> out]))
=============================================================================
