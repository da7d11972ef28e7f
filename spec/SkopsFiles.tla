------------------------------ MODULE SkopsFiles ------------------------------
(* Files around skops: `skops update`, `skops convert`, `dump`.               *)
(*                                                                            *)
(* A command works on at most one input and one destination.  The contents of *)
(* a file are abstracted to                                                   *)
(*   "absent", "prev" (what was there before), "new" (the complete archive    *)
(*   that the command is meant to write), "other" (anything else, e.g. a part *)
(*   of the archive).                                                         *)
(* cfg = [cmd, proto, out, inplace, persist, dest0, fault]                    *)
(*   cmd     "update" | "convert" | "dump"                                    *)
(*   proto   "old" | "cur" | "newer"          protocol of the input archive   *)
(*   out     "none" | "same" | "file" | "nodir"                               *)
(*           no output / the input under some name / another file / a file in *)
(*           a directory that does not exist                                  *)
(*   persist whether the object can be persisted                              *)
(*   dest0   "absent" | "prev"                                                *)
(*   fault   "no" | "io" | "kill"    an I/O error, death of the process       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Target(c) == IF c.cmd # "update" THEN c.out
             ELSE IF c.inplace THEN "same" ELSE c.out
Conflict(c) == c.cmd = "update" /\ c.inplace /\ c.out # "none"

(* does the command have to produce a file *)
Writes(c) ==
  CASE c.cmd = "update" -> ~Conflict(c) /\ c.proto = "old" /\ c.persist
                           /\ Target(c) # "none" /\ (Target(c) = "same" => c.inplace)
    [] OTHER -> c.persist

(* contents the input may have when the command has ended (or died) *)
InputMay(c) ==
  IF c.cmd = "update" /\ c.inplace /\ Writes(c)
  THEN IF c.fault = "no" THEN {"new"} ELSE {"prev", "new"}
  ELSE {"prev"}
(* contents the destination (a file other than the input) may have *)
DestMay(c) ==
  IF ~Writes(c) \/ c.out = "none" \/ Target(c) = "same" THEN {c.dest0}
  ELSE CASE c.cmd = "update" ->
              IF c.fault = "no" THEN (IF c.out = "nodir" THEN {c.dest0, "new"} ELSE {"new"})
              ELSE {c.dest0, "new"}
         [] OTHER -> IF c.fault = "no" THEN {"new"} ELSE {"absent", "prev", "new", "other"}
(* outcomes: "ok" or "raised" *)
OutMay(c) ==
  CASE c.fault # "no" -> {"ok", "raised"}
    [] c.cmd = "update" ->
         IF Conflict(c) THEN {"raised"}
         ELSE IF c.proto # "old" \/ Target(c) = "none" THEN {"ok"}
         ELSE IF ~c.persist THEN {"raised"}
         ELSE IF c.out \in {"same", "nodir"} THEN {"ok", "raised"}
         ELSE {"ok"}
    [] OTHER -> IF c.persist THEN {"ok"} ELSE {"raised"}

(* --------------------------------------------------------- default output name *)
\* path and result are sequences of code points; 47 is "/", 46 is "."
RECURSIVE LastComp(_)
LastComp(p) == IF p = <<>> THEN <<>>
               ELSE IF \E j \in DOMAIN p : p[j] = 47
                    THEN LastComp(SubSeq(p, (CHOOSE j \in DOMAIN p : p[j] = 47) + 1, Len(p)))
                    ELSE p
Stem(p) ==
  LET n == LastComp(p)
      dots == {j \in 2..(Len(n) - 1) : n[j] = 46}
      last == CHOOSE j \in dots : \A k \in dots : k <= j
  IN IF dots = {} \/ n[Len(n)] = 46 THEN n ELSE SubSeq(n, 1, last - 1)
DefaultName(p) == Stem(p) \o <<46, 115, 107, 111, 112, 115>>      \* ".skops"

(* --------------------------------------------------------- persistable objects *)
\* A value is a context path around one leaf: <<context, position>> pairs, outermost first.
\* It can be persisted iff its leaf can: one unsupported value anywhere spoils everything.
Persistable(ctx, leaf) == leaf = "fine"
=============================================================================
