------------------------------- MODULE SkopsValue -------------------------------
(* Values, how they are encoded in the schema of an archive, and what comes    *)
(* back (C04, C05).  A value is a term [k, v, c]:                              *)
(*   k  the kind, v  the text that tells values of a kind apart, c  the parts. *)
(* A node of a schema is [ld, nm, tx, c]: the loader, the class it names, the  *)
(* text it holds and the child nodes.  Refuse stands for an exception.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
ToSet(s) == {s[j] : j \in DOMAIN s}
Mk(k, v, c) == [k |-> k, v |-> v, c |-> c]
Nd(ld, nm, tx, c) == [ld |-> ld, nm |-> nm, tx |-> tx, c |-> c]
Refuse == Nd("refuse", "", "", <<>>)
Broken == Mk("broken", "", <<>>)

(* ------------------------------------------------------------------- kinds *)
Scalars == {"none", "bool", "int", "float", "str"}
\* numbers of numpy whose text JSON can hold, and the ones it cannot
NumpyKeys == {"npint", "npfloat"}
Opaque == {"bytes", "bytearray", "array", "npscalar", "nplong", "masked", "dtype", "rs", "gen", "sparse",
           "ufunc", "type", "function"}
Sequences_ == {"list", "tuple", "set"}
Dicts == {"dict", "odict"}
\* classes by the way their instances travel
\*   plain: attributes; getset: a state of their own; reduce: class(arguments)
\*   state: class(arguments) and a state; items: appended elements; other: a callable
Instances == {"plain", "getset", "reduce", "rstate", "ritems", "rother", "dictsub", "listsub", "slots"}
AtomKinds == Scalars \cup NumpyKeys \cup Opaque

(* ------------------------------------------------------- supported families *)
Hashable(d) == d.k \in Scalars \cup NumpyKeys \cup {"npscalar", "bytes", "type"} \/ (d.k = "tuple" /\ d.c = <<>>)
RECURSIVE Supported(_)
Supported(d) ==
  LET kids == \A j \in DOMAIN d.c : Supported(d.c[j]) IN
  CASE d.k \in Scalars \cup NumpyKeys -> TRUE
    [] d.k \in Opaque \ {"function"} -> TRUE
    [] d.k \in Sequences_ -> kids
    \* c: items; the first part of an item is the key
    [] d.k \in Dicts -> \A j \in DOMAIN d.c : d.c[j].c[1].k \in {"str", "int", "float"} \cup NumpyKeys
                                              /\ Supported(d.c[j].c[2])
    \* the first part is the factory
    [] d.k = "ddict" -> /\ d.c[1].k \in {"none", "type"}
                        /\ \A j \in 2..Len(d.c) : d.c[j].c[1].k \in {"str", "int", "float"} \cup NumpyKeys
                                                  /\ Supported(d.c[j].c[2])
    [] d.k = "slice" -> \A j \in DOMAIN d.c : d.c[j].k \in {"none", "int"}
    \* v: "n" rank >= 1
    [] d.k = "oarray" -> d.v = "n" /\ d.c # <<>> /\ \A j \in DOMAIN d.c : d.c[j].k \in Scalars
    [] d.k = "partial" -> d.c[1].k \in {"ufunc", "type"} /\ kids
    [] d.k \in {"attrgetter", "itemgetter"} -> kids
    [] OTHER -> FALSE

(* ------------------------------------------------------------------ encoding *)
\* the text of a dict key in JSON, if calling its type with it gives the key again
HasJsonKey(key) == key.k \in {"str", "int", "float"} \cup NumpyKeys
RECURSIVE Enc(_)
EncAll(s) == [j \in DOMAIN s |-> Enc(s[j])]
HasRefusal(ns) == \E j \in DOMAIN ns : ns[j].ld = "refuse"
Node_(ld, nm, tx, ns) == IF HasRefusal(ns) THEN Refuse ELSE Nd(ld, nm, tx, ns)
\* items are stored under their texts in one JSON object
EncDict(ld, nm, its, extra) ==
  LET keys == [j \in DOMAIN its |-> its[j].c[1]]
      vals == [j \in DOMAIN its |-> Enc(its[j].c[2])]
      texts == {keys[j].v : j \in DOMAIN keys}
      plain == (\A j \in DOMAIN keys : HasJsonKey(keys[j])) /\ Cardinality(texts) = Len(keys)
      body == [j \in DOMAIN its |->
                IF plain THEN Node_("item", keys[j].k, keys[j].v, <<vals[j]>>)
                ELSE Node_("item", "keys", ToString(j), <<Enc(keys[j]), vals[j]>>)]
  IN Node_(ld, nm, IF plain THEN "key_types" ELSE "keys", body \o extra)
Enc(d) ==
  CASE d.k \in Scalars -> Nd("JsonNode", "str", d.k \o ":" \o d.v, <<>>)
    [] d.k \in NumpyKeys \cup {"npscalar", "nplong", "array"} -> Nd("NdArrayNode", d.k, d.v, <<>>)
    [] d.k \in Opaque -> Nd("file", d.k, d.v, <<>>)
    [] d.k = "list" -> Node_("ListNode", "list", "", EncAll(d.c))
    [] d.k = "tuple" -> Node_("TupleNode", "tuple", "", EncAll(d.c))
    [] d.k = "set" -> Node_("SetNode", "set", "", EncAll(d.c))
    [] d.k \in Dicts -> EncDict("DictNode", d.k, d.c, <<>>)
    [] d.k = "ddict" -> LET f == Enc(d.c[1]) IN
                        IF f.ld = "refuse" THEN Refuse
                        ELSE EncDict("DefaultDictNode", "ddict", SubSeq(d.c, 2, Len(d.c)), <<Nd("factory", "", "", <<f>>)>>)
    [] d.k = "slice" -> Node_("SliceNode", "slice", "", EncAll(d.c))
    [] d.k = "oarray" -> Node_("NdArrayNode", "oarray", d.v, EncAll(d.c))
    [] d.k = "partial" -> Node_("PartialNode", "partial", "", EncAll(d.c))
    [] d.k \in {"attrgetter", "itemgetter"} -> Node_("OperatorFuncNode", d.k, "", EncAll(d.c))
    [] d.k \in {"plain", "getset"} -> Node_("ObjectNode", d.k, d.v, EncAll(d.c))
    [] d.k = "slots" -> Node_("ObjectNode", d.k, d.v, EncAll(d.c))
    [] d.k = "reduce" -> Node_("ConstructorFromReduceNode", d.k, d.v, EncAll(d.c))
    \* subclasses of containers: the elements and the attributes (the last part)
    [] d.k = "dictsub" -> LET a == Enc(d.c[Len(d.c)]) IN
                          IF a.ld = "refuse" THEN Refuse
                          ELSE EncDict("DictNode", d.k, SubSeq(d.c, 1, Len(d.c) - 1), <<Nd("attrs", "", "", <<a>>)>>)
    [] d.k = "listsub" -> LET ns == EncAll(d.c) IN
                          IF HasRefusal(ns) THEN Refuse
                          ELSE Nd("ListNode", d.k, "", SubSeq(ns, 1, Len(ns) - 1)
                                                       \o <<Nd("attrs", "", "", <<ns[Len(ns)]>>)>>)
    [] OTHER -> Refuse

(* ------------------------------------------------------------------ decoding *)
\* the scalar that a text of a JSON node stands for
Scalar(tx, atoms) == CHOOSE a \in atoms : a.k \o ":" \o a.v = tx
RECURSIVE Dec(_, _)
DecAll(s, atoms) == [j \in DOMAIN s |-> Dec(s[j], atoms)]
\* later items of the same JSON key replace earlier ones, which keep their place
RECURSIVE Collapse(_, _)
Collapse(its, acc) ==
  IF its = <<>> THEN acc
  ELSE LET it == Head(its)
           same == {j \in DOMAIN acc : acc[j].tx = it.tx}
       IN Collapse(Tail(its), IF same = {} THEN Append(acc, it)
                              ELSE [j \in DOMAIN acc |-> IF j \in same THEN it ELSE acc[j]])
DecItems(n, atoms) ==
  LET its == Collapse(SelectSeq(n.c, LAMBDA x : x.ld = "item"), <<>>)
      key(it) == IF n.tx = "keys" THEN Dec(it.c[1], atoms) ELSE Mk(it.nm, it.tx, <<>>)
  IN [j \in DOMAIN its |-> Mk("item", "", <<key(its[j]), Dec(its[j].c[Len(its[j].c)], atoms)>>)]
Extra(n, ld) == SelectSeq(n.c, LAMBDA x : x.ld = ld)
Dec(n, atoms) ==
  CASE n.ld = "JsonNode" -> Scalar(n.tx, atoms)
    [] n.ld = "NdArrayNode" -> Mk(n.nm, n.tx, DecAll(n.c, atoms))
    [] n.ld = "file" -> Mk(n.nm, n.tx, <<>>)
    [] n.ld \in {"TupleNode", "SetNode", "SliceNode", "PartialNode", "OperatorFuncNode", "ObjectNode",
                 "ConstructorFromReduceNode"} -> Mk(n.nm, n.tx, DecAll(n.c, atoms))
    [] n.ld = "ListNode" -> LET at == Extra(n, "attrs")
                                els == SelectSeq(n.c, LAMBDA x : x.ld # "attrs")
                            IN Mk(n.nm, "", DecAll(els, atoms) \o [j \in DOMAIN at |-> Dec(at[j].c[1], atoms)])
    [] n.ld = "DictNode" -> LET at == Extra(n, "attrs") IN
                            Mk(n.nm, "", DecItems(n, atoms) \o [j \in DOMAIN at |-> Dec(at[j].c[1], atoms)])
    [] n.ld = "DefaultDictNode" -> LET f == Extra(n, "factory") IN
                                   Mk(n.nm, "", <<Dec(f[1].c[1], atoms)>> \o DecItems(n, atoms))
    [] OTHER -> Broken
=============================================================================
