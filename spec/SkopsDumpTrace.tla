----------------------------- MODULE SkopsDumpTrace -----------------------------
(* Archives recorded from the real code.                                        *)
(*  heap [a, b, dup]  references found by walking the dumped and the loaded      *)
(*        object along the same paths: the numbers of the objects they lead to  *)
(*  content [want, got]     terms (digests) of the two                           *)
(*  stored [want, got]      members holding arrays: expected and found           *)
(*  archive [...]           an archive, as read by zipfile and json              *)
(*  sink [...]              the canonical form of the archive written to a sink  *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, canon
Ev == Traces[t].ev[i + 1]
Clause(ok, name) == IF ok THEN {} ELSE {name}

\* the map from the objects of the one graph to those of the other is a function / injective
Heap(e) ==
  LET pairs == {<<e.a[j], e.b[j]>> : j \in DOMAIN e.a}
      left == {p[1] : p \in pairs}
      right == {p[2] : p \in pairs}
  IN Clause(Cardinality(pairs) = Cardinality(left), "shared-object-split")
     \cup Clause(Cardinality(pairs) = Cardinality(right), "distinct-objects-merged")

Flat(m) == m # "" /\ m # "." /\ m # ".."
           /\ \A c \in 1..Len(m) : SubSeq(m, c, c) \notin {"/", "\\", ":"}
WellFormed(e) ==
  LET names == ToSet(e.members)
      refs == ToSet(e.refs)
  IN Clause(e.zip, "zip")
     \cup Clause(e.json, "schema-json")
     \cup Clause(~e.json \/ (e.proto = e.wantproto /\ e.version = e.wantversion), "protocol-and-version")
     \cup Clause(\A n \in ToSet(e.nodes) : n = "ok", "node-header")
     \cup Clause(refs \subseteq names, "referenced-member-exists")
     \cup Clause(names \subseteq refs \cup {"schema.json"}, "member-is-referenced")
     \cup Clause(Cardinality(names) = Len(e.members), "member-names-unique")
     \cup Clause(\A m \in names : Flat(m), "member-names-flat")

Verdict(e) ==
  CASE e.op = "heap" -> Heap(e)
    [] e.op = "content" -> Clause(e.want = e.got, "content")
    [] e.op = "stored" -> Clause(e.got <= e.want, "stored-once")
    [] e.op = "archive" -> WellFormed(e)
    [] e.op = "sink" -> Clause(e.out = "ok", "sink-works")
                        \cup Clause(e.out # "ok" \/ canon = "" \/ e.canon = canon, "same-for-every-sink-and-compression")
                        \cup Clause(e.out # "ok" \/ e.same, "loads-to-an-equal-object")

TraceInit == t \in DOMAIN Traces /\ i = 0 /\ canon = ""
TraceNext ==
  /\ i < Len(Traces[t].ev) /\ i' = i + 1 /\ t' = t
  /\ canon' = (IF Ev.op = "sink" /\ Ev.out = "ok" /\ canon = "" THEN Ev.canon ELSE canon)
  /\ LET bad == Verdict(Ev) IN
     bad # {} => PrintT("@@" \o ToJson([t |-> t, i |-> i + 1, bad |-> bad]))
TraceSpec == TraceInit /\ [][TraceNext]_<<t, i, canon>>
=============================================================================
