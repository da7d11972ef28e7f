---------------------------- MODULE SkopsEstimator ----------------------------
(* Estimators and their compositions, their life (set_params, fit) and their    *)
(* round trip.                                                                   *)
(*                                                                               *)
(* A composition is a tree: node j has kind[j] and parent par[j] (0: the root).  *)
(* A kind takes parts of given roles and has a role itself:                      *)
(*     T transformer, C classifier, R regressor                                  *)
(* An estimator is abstracted to what its behaviour depends on: the version of   *)
(* its hyper-parameters (p), the hyper-parameters with which it was fitted (f,   *)
(* 0: unfitted) and the draws its random generator has made (g).                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS N,      \* number of parts of the composition
          K,      \* number of steps before the dump
          L       \* number of steps after the load

VARIABLES par, kind, phase, est, arch, copy, log
vars == <<par, kind, phase, est, arch, copy, log>>

\* kind -> <<role, roles of the parts, may it have more than one part>>
Kinds ==
  [ leafT |-> <<"T", {}, 0>>, leafC |-> <<"C", {}, 0>>, leafR |-> <<"R", {}, 0>>,
    fun |-> <<"T", {}, 0>>, own |-> <<"T", {}, 0>>, ownfun |-> <<"T", {}, 0>>,
    pipeC |-> <<"C", {"T", "C"}, 2>>, pipeR |-> <<"R", {"T", "R"}, 2>>, pipeT |-> <<"T", {"T"}, 2>>,
    union |-> <<"T", {"T"}, 2>>, columns |-> <<"T", {"T"}, 2>>,
    searchC |-> <<"C", {"C"}, 1>>, searchR |-> <<"R", {"R"}, 1>>, bagC |-> <<"C", {"C"}, 1>>, bagR |-> <<"R", {"R"}, 1>>,
    voteC |-> <<"C", {"C"}, 2>>, voteR |-> <<"R", {"R"}, 2>>, stackC |-> <<"C", {"C"}, 2>>, stackR |-> <<"R", {"R"}, 2>>,
    calib |-> <<"C", {"C"}, 1>>, wrapC |-> <<"C", {"C"}, 1>>, multiR |-> <<"R", {"R"}, 1>>, target |-> <<"R", {"R"}, 1>>,
    select |-> <<"T", {"C", "R"}, 1>>, frozen |-> <<"T", {"T"}, 1>> ]
KindNames == DOMAIN Kinds
Leaves == {k \in KindNames : Kinds[k][3] = 0}
RoleOf(k) == Kinds[k][1]
NotTrusted == {"own", "ownfun"}

Kids(q, j) == {c \in DOMAIN q : q[c] = j}
\* a pipeline has transformers, then its last part decides
PartsOK(q, kd, j) ==
  LET ks == Kids(q, j) IN
  IF kd[j] \in {"pipeC", "pipeR"}
  THEN \A c \in ks : RoleOf(kd[c]) = IF \E d \in ks : d > c THEN "T" ELSE RoleOf(kd[j])
  ELSE \A c \in ks : RoleOf(kd[c]) \in Kinds[kd[j]][2]
Full(q, kd, j) == IF kd[j] \in Leaves THEN Kids(q, j) = {} ELSE Kids(q, j) # {} /\ Cardinality(Kids(q, j)) <= Kinds[kd[j]][3]
Typed(q, kd) == \A j \in DOMAIN q : PartsOK(q, kd, j) /\ Full(q, kd, j)
\* numbered in the order of a walk (the parent of c is c - 1 or above it): each composition once
RECURSIVE Anc(_, _)
Anc(q, x) == IF x = 0 THEN {} ELSE {x} \cup Anc(q, q[x])
Canonical(q) == \A c \in DOMAIN q \ {1} : q[c] \in Anc(q, c - 1)

New == [p |-> 1, f |-> 0, g |-> 0]
None == [p |-> 0, f |-> 0, g |-> 0]
Fit(e) == [e EXCEPT !.f = e.p, !.g = @ + 1]
Set(e) == [e EXCEPT !.p = @ + 1]
Steps == {"fit", "set", "clone"}
Clone(e) == [p |-> e.p, f |-> 0, g |-> e.g]
Do(s, e) == CASE s = "fit" -> Fit(e) [] s = "set" -> Set(e) [] OTHER -> Clone(e)
\* what can be observed of an estimator: parameters, and (if fitted) its outputs
Output(e) == IF e.f = 0 THEN <<"not fitted">> ELSE <<e.f, e.g>>

Init ==
  /\ phase = "compose" /\ par = <<0>> /\ kind \in {<<k>> : k \in KindNames}
  /\ est = None /\ arch = None /\ copy = None /\ log = <<>>
Grow ==
  /\ phase = "compose" /\ Len(par) < N
  /\ \E a \in 1..Len(par) : \E k \in KindNames :
       /\ Kinds[kind[a]][3] > Cardinality(Kids(par, a))
       /\ RoleOf(k) \in Kinds[kind[a]][2]
       /\ par' = Append(par, a) /\ kind' = Append(kind, k)
       /\ Canonical(par')
  /\ UNCHANGED <<phase, est, arch, copy, log>>
Make ==
  /\ phase = "compose" /\ Typed(par, kind)
  /\ phase' = "made" /\ est' = New
  /\ UNCHANGED <<par, kind, arch, copy, log>>
Live ==
  /\ phase = "made" /\ Len(log) < K
  /\ \E s \in Steps : est' = Do(s, est) /\ log' = Append(log, s)
  /\ UNCHANGED <<par, kind, phase, arch, copy>>
Dump ==
  /\ phase = "made" /\ arch' = est /\ phase' = "dumped" /\ log' = Append(log, "dump")
  /\ UNCHANGED <<par, kind, est, copy>>
Load ==
  /\ phase = "dumped" /\ copy' = arch /\ phase' = "loaded" /\ log' = Append(log, "load")
  /\ UNCHANGED <<par, kind, est, arch>>
After ==
  /\ phase = "loaded"
  /\ Cardinality({j \in DOMAIN log : \E d \in 1..(j - 1) : log[d] = "load"}) < L
  /\ \E s \in Steps \cup {"again"} :
       /\ log' = Append(log, s)
       /\ IF s = "again" THEN copy' = copy /\ arch' = copy /\ UNCHANGED est   \* dump and load the copy
          ELSE est' = Do(s, est) /\ copy' = Do(s, copy) /\ UNCHANGED arch
  /\ UNCHANGED <<par, kind, phase>>
Next == Grow \/ Make \/ Live \/ Dump \/ Load \/ After
Spec == Init /\ [][Next]_vars

\* the reloaded estimator is the same model, then and after the same steps
SameModel == phase = "loaded" => copy = est /\ Output(copy) = Output(est)
\* dumping and loading do not touch the estimator
Untouched == [][phase' # phase => (est' = est \/ phase = "compose")]_vars
\* it loads without a trusted list iff all of its parts are trusted by default
Loads0(kd) == \A j \in DOMAIN kd : kd[j] \notin NotTrusted
EmitComposition ==
  (phase = "made" /\ log = <<>>) =>
     PrintT("@@" \o ToJson([par |-> par, kind |-> kind, loads0 |-> Loads0(kind)]))
=============================================================================
