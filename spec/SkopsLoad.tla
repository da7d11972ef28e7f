------------------------------- MODULE SkopsLoad -------------------------------
(* Archives of skops.io and how they are inspected and loaded.                *)
(*                                                                            *)
(* An archive is [proto, nodes]: the states of its schema in the order in     *)
(* which their nodes are built (pre-order).  A node is                        *)
(*   [kind, name, fam, id, par, slot, key]                                    *)
(* kind  the loader;  name  the module and class it names;  fam  the          *)
(* documented family this name belongs to ("none" outside all of them);       *)
(* id    the saved id (0: none);  par  the index of the parent (0: root).     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Current == 2
Protocols == 0..Current
ToSet(s) == {s[j] : j \in DOMAIN s}

(* ------------------------------------------------------------- registry *)
Kinds == {"DictNode", "DefaultDictNode", "ListNode", "SetNode", "TupleNode", "FunctionNode",
          "PartialNode", "TypeNode", "SliceNode", "ConstructorFromReduceNode", "ObjectNode",
          "MethodNode", "JsonNode", "BytesNode", "BytearrayNode", "OperatorFuncNode",
          "NdArrayNode", "MaskedArrayNode", "DTypeNode", "RandomStateNode",
          "RandomGeneratorNode", "SparseMatrixNode", "TreeNode", "LossNode"}
\* protocols with a loader of their own
Registered(k) == CASE k = "FunctionNode" -> {0, Current}
                   [] k = "RandomGeneratorNode" -> {0, 1, Current}
                   [] k \in Kinds -> {Current}
                   [] OTHER -> {}
\* the loader of the smallest registered protocol that is not below p
Smallest(S, p) == CHOOSE q \in S : q >= p /\ \A r \in S : r >= p => q <= r
HasLoader(S, p) == \E q \in S : q >= p
LoaderFor(k, p) == Smallest(Registered(k), p)

(* ------------------------------------------------------------- families *)
Families == {"primitive", "container", "dict", "defaultdict", "bytes", "bytearray", "slice",
             "npscalar", "ndarray", "ufunc", "MaskedArray", "RandomState", "Generator", "dtype",
             "numpy-internal", "sparse", "estimator", "tree", "loss"}
\* families of which (some) names are accepted by default in the header of a node
DefaultFamilies(k) ==
  CASE k = "DictNode" -> {"dict"} [] k = "DefaultDictNode" -> {"defaultdict"}
    [] k \in {"ListNode", "SetNode", "TupleNode"} -> {"container"}
    [] k = "FunctionNode" -> {"ufunc"} [] k = "TypeNode" -> {"primitive", "container", "npscalar"}
    [] k = "SliceNode" -> {"slice"} [] k = "ObjectNode" -> {"estimator"}
    [] k = "JsonNode" -> {"primitive"} [] k = "BytesNode" -> {"bytes"}
    [] k = "BytearrayNode" -> {"bytearray"} [] k = "NdArrayNode" -> {"ndarray", "npscalar"}
    [] k = "MaskedArrayNode" -> {"MaskedArray"} [] k = "RandomStateNode" -> {"RandomState"}
    [] k = "RandomGeneratorNode" -> {"Generator"} [] k = "SparseMatrixNode" -> {"sparse"}
    [] k = "TreeNode" -> {"tree"} [] k = "LossNode" -> {"loss"}
    [] OTHER -> {}

(* ------------------------------------------------------- building the tree *)
\* Nodes are built in order; a state with an id that was seen before is dropped, together
\* with everything below it, and the first node of that id takes its place.
RECURSIVE Build(_, _, _, _)
Build(ns, i, built, memo) ==
  IF i > Len(ns) THEN [built |-> built, memo |-> memo]
  ELSE IF ns[i].par # 0 /\ ns[i].par \notin built THEN Build(ns, i + 1, built, memo)
  ELSE IF ns[i].id # 0 /\ ns[i].id \in DOMAIN memo THEN Build(ns, i + 1, built, memo)
  ELSE Build(ns, i + 1, built \cup {i},
             IF ns[i].id = 0 THEN memo ELSE memo @@ (ns[i].id :> i))
Built(ns) == Build(ns, 1, {}, <<>>)
\* the node that takes the place of i (whose parent was built)
Target(ns, b, i) == IF i \in b.built THEN i ELSE b.memo[ns[i].id]
Children(ns, b, i) == {Target(ns, b, c) : c \in {c \in DOMAIN ns : ns[c].par = i}}
RECURSIVE ReachFrom(_, _, _, _)
ReachFrom(ns, b, todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET new == (UNION {Children(ns, b, i) : i \in todo}) \ (seen \cup todo)
       IN ReachFrom(ns, b, new, seen \cup todo)
Reach(ns, b, i) == ReachFrom(ns, b, {i}, {})

(* ------------------------------------------------------------------- audit *)
\* what has to be reported whatever the lists of default trusted names: names outside of the
\* documented families
MustReport(ns, b, S) == {ns[i].name : i \in {i \in S \cap b.built : ns[i].fam = "none"}}
\* nothing else may be the case for a node that only names members of its own families
MayReport(ns, b, S) == {ns[i].name : i \in S \cap b.built}
Missing(U, T) == U \ T
Refused(U, T) == Missing(U, T) # {}
\* names that loading may use
Allowed(n, fam, T) == n \in T \/ fam \in Families
=============================================================================
