------------------------------ MODULE SkopsLoadMC ------------------------------
(* The life of an archive: built, audited, and constructed node by node.      *)
(* Initial states are all archives of the bounded instance: a root, a child   *)
(* in one of its slots and possibly a sibling or grandchild, with names of    *)
(* the node's own family, of another family or outside of all families, with  *)
(* fresh or repeated ids, under every protocol; for every trusted list over   *)
(* the names of the archive.  Archives are printed for the driver.            *)
EXTENDS SkopsLoad, Json
CONSTANTS RootNames, KidNames, Protos, Shapes
VARIABLES ar, T, phase, used, todo, out
vars == <<ar, T, phase, used, todo, out>>

Slots(k) ==
  CASE k = "DictNode" -> {"key_types", "keys", "content", "attrs"}
    [] k = "DefaultDictNode" -> {"main", "default_factory", "attrs"}
    [] k \in {"ListNode", "SetNode", "TupleNode"} -> {"content", "attrs"}
    [] k = "PartialNode" -> {"func", "args", "kwds", "namespace"}
    [] k = "SliceNode" -> {"start", "stop", "step"}
    [] k \in {"ConstructorFromReduceNode", "ObjectNode", "DTypeNode"} -> {"content"}
    [] k = "RandomStateNode" -> {"content", "attrs"}
    [] k = "MethodNode" -> {"obj"}
    [] k = "OperatorFuncNode" -> {"attrs"}
    [] k = "NdArrayNode" -> {"content", "shape", "attrs"}
    [] k = "MaskedArrayNode" -> {"data", "mask", "fill_value", "hard_mask"}
    [] k = "RandomGeneratorNode" -> {"bit_generator", "seed_seq", "attrs"}
    [] k \in {"TreeNode", "LossNode"} -> {"attrs", "args"}
    [] OTHER -> {}
\* abstract names: "own" (what dump writes for the kind), "canary" (outside of all families),
\* "other" (a member of a family of another kind)
OwnFam(k) == IF DefaultFamilies(k) = {} THEN "none" ELSE CHOOSE f \in DefaultFamilies(k) : TRUE
OtherFam(k) == CHOOSE f \in {"loss", "estimator", "primitive"} : f \notin DefaultFamilies(k)
FamOf(k, n) == CASE n = "own" -> OwnFam(k) [] n = "other" -> OtherFam(k) [] OTHER -> "none"
Name(k, n) == k \o ":" \o n
Node(k, n, id, par, slot) ==
  [kind |-> k, n |-> n, name |-> Name(k, n), fam |-> FamOf(k, n), id |-> id, par |-> par, slot |-> slot]

\* shapes: "pair" root and child; "cycle" the child has the id of the root;
\* "twin" two children with the same id, the second is an (unlisted) impostor of another kind
Archive(p, sh, k, rn, c, cn, s) ==
  [proto |-> p, shape |-> sh,
   nodes |-> CASE sh = "single" -> <<Node(k, rn, 1, 0, "root")>>
               [] sh = "pair" -> <<Node(k, rn, 1, 0, "root"), Node(c, cn, 2, 1, s)>>
               [] sh = "cycle" -> <<Node(k, rn, 1, 0, "root"), Node(c, cn, 1, 1, s)>>
               [] sh = "twin" -> <<Node("ListNode", "own", 9, 0, "root"),
                                   Node(k, rn, 1, 1, "content"), Node(c, cn, 1, 1, "content")>>
               [] sh = "chain" -> <<Node("ObjectNode", "own", 9, 0, "root"),
                                    Node(k, rn, 1, 1, "content"), Node(c, cn, 2, 2, s)>>]

\* C08
ASSUME Dispatch == \A k \in Kinds, p \in Protocols :
              /\ HasLoader(Registered(k), p)
              /\ LoaderFor(k, Current) = Current
              /\ p \in Registered(k) => LoaderFor(k, p) = p
NamesOf(a) == {a.nodes[i].name : i \in DOMAIN a.nodes}
B == Built(ar.nodes)
\* the report of the implementation: names that the node does not accept by default
Accepted(nd) == nd.n = "own" /\ nd.fam # "none"
Report == {ar.nodes[i].name : i \in {i \in B.built : ~Accepted(ar.nodes[i])}}

Init == /\ \E p \in Protos, sh \in Shapes, k \in Kinds, rn \in RootNames :
             \/ sh = "single" /\ ar = Archive(p, sh, k, rn, k, "own", "x")
             \/ sh # "single" /\ \E c \in Kinds, cn \in KidNames,
                                      s \in (IF sh = "twin" THEN {"content"} ELSE Slots(k)) :
                  ar = Archive(p, sh, k, rn, c, cn, s)
        /\ T \in {{}, Report} \cup {{n} : n \in NamesOf(ar)}
        /\ phase = "schema" /\ used = {} /\ todo = {} /\ out = "none"
BuildTree == phase = "schema" /\ phase' = "built" /\ UNCHANGED <<ar, T, used, todo, out>>
Audit == /\ phase = "built"
         /\ IF Refused(Report, T) THEN phase' = "end" /\ out' = "untrusted" /\ todo' = todo
            ELSE phase' = "construct" /\ out' = out /\ todo' = {1}
         /\ UNCHANGED <<ar, T, used>>
\* construct nodes from the root on, in any order; each node once
Construct == /\ phase = "construct" /\ todo # {}
             /\ \E i \in todo :
                  /\ used' = used \cup {i}
                  /\ todo' = (todo \cup Children(ar.nodes, B, i)) \ used'
             /\ UNCHANGED <<ar, T, phase, out>>
Finish == /\ phase = "construct" /\ todo = {} /\ phase' = "end" /\ out' = "ok"
          /\ UNCHANGED <<ar, T, used, todo>>
\* an archive can be malformed in many ways; loading may then raise at any moment
Fail == /\ phase \in {"schema", "construct"} /\ phase' = "end" /\ out' = "raise"
        /\ UNCHANGED <<ar, T, used, todo>>
Next == BuildTree \/ Audit \/ Construct \/ Finish \/ Fail
Spec == Init /\ [][Next]_vars

\* C02: nothing is used before the verdict
Inert == phase \in {"schema", "built"} \/ out = "untrusted" => used = {}
\* C01: whatever is used is listed or belongs to the families
Vouched == \A i \in used : Allowed(ar.nodes[i].name, ar.nodes[i].fam, T)
\* C03: the verdict is the report minus the list
Exact == /\ out = "untrusted" => Missing(Report, T) # {}
         /\ out = "ok" => Missing(Report, T) = {}
\* C11: names outside of the families are always reported
Documented == MustReport(ar.nodes, B, DOMAIN ar.nodes) \subseteq Report
\* the audit covers everything that is constructed
Covered == used \subseteq B.built
Emit == (phase = "schema" /\ T = {}) =>
          PrintT("@@" \o ToJson([proto |-> ar.proto, shape |-> ar.shape,
                                 nodes |-> ar.nodes, report |-> Report,
                                 must |-> MustReport(ar.nodes, B, DOMAIN ar.nodes)]))
=============================================================================
