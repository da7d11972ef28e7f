--------------------------- MODULE SkopsCardTrace ----------------------------
(* Trace validation of real Card objects.  Every event names the call, its    *)
(* arguments, its outcome and the projected tree after it.  The verdict is    *)
(* total: the set of violated clauses of each event is printed.               *)
EXTENDS SkopsCard, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, tree, mets, ok
tvars == <<t, i, tree, mets, ok>>

Ev == Traces[t].ev[i + 1]

\* [tree, mets, out] the specification demands for event e
ItemNode(e, it) ==
  LET p == Split(it.path) IN
  CASE e.op = "add" -> Plain(Leaf(p), it.c, e.f)
    [] e.op = "plot" -> PlotNode(Leaf(p), e.desc, e.alt, it.file, e.f)
    [] e.op = "table" -> TableNode(Leaf(p), e.desc, it.head, it.rows, e.f)
Expect(e) ==
  CASE e.op = "new" -> [tree |-> <<>>, mets |-> <<>>, out |-> "ok"]
    [] e.op \in {"add", "plot", "table"} ->
         [tree |-> PutAll(tree, [j \in DOMAIN e.items |->
                      <<Split(e.items[j].path), ItemNode(e, e.items[j])>>]),
          mets |-> mets, out |-> "ok"]
    [] e.op = "metrics" ->
         LET m == MergeMetrics(mets, e.items)
             p == Split(e.path) IN
         [tree |-> Put(tree, p, MetricNode(Leaf(p), e.desc, m)), mets |-> m, out |-> "ok"]
    [] e.op = "hyper" ->
         LET p == Split(e.path) IN
         [tree |-> Put(tree, p, HyperNode(Leaf(p), e.desc, e.params)), mets |-> mets,
          out |-> "ok"]
    [] e.op = "observed" -> [tree |-> e.full, mets |-> mets, out |-> "ok"]
    [] e.op = "select" -> [tree |-> tree, mets |-> mets, out |-> ChainLookup(tree, e.chain)]
    [] e.op = "delete" ->
         LET p == Split(e.path)
             o == IF e.path = <<>> THEN "KeyError" ELSE Lookup(tree, p) IN
         [tree |-> IF o = "ok" \/ (o = "any" /\ e.out = "ok") THEN Del(tree, p) ELSE tree,
          mets |-> mets, out |-> o]
    [] e.op = "deletelist" ->
         LET o == Lookup(tree, e.parts) IN
         [tree |-> IF o = "ok" \/ (o = "any" /\ e.out = "ok") THEN Del(tree, e.parts) ELSE tree,
          mets |-> mets, out |-> o]
    [] e.op = "set" ->
         LET p == Split(e.path) IN
         [tree |-> Upd(tree, p, e.field, e.val), mets |-> mets, out |-> "ok"]
    [] OTHER -> [tree |-> tree, mets |-> mets, out |-> "ok"]

OutOK(want, got) == want = "any" \/ want = got

\* an add whose section carries the same content several times is legal; clause names are the
\* ones reported
Verdict(e, x) ==
  (IF OutOK(x.out, e.out) THEN {} ELSE {"outcome-" \o e.op})
  \cup (IF "post" \in DOMAIN e /\ e.post # ViewAll(x.tree) THEN {"tree-after-" \o e.op} ELSE {})
  \cup (IF e.op = "select" /\ x.out = "ok" /\ e.out = "ok"
           /\ e.sel # View(Get(tree, Flat(e.chain))) THEN {"select-result"} ELSE {})
  \cup (IF e.op = "render" /\ e.out = "ok" /\ ~MatchRender(tree, e.lines)
        THEN {"render-is-the-visible-tree"} ELSE {})
  \cup (IF e.op = "toc" /\ e.out = "ok" /\ e.text # TocText(tree)
        THEN {"toc-lists-rendered-headings"} ELSE {})
  \cup (IF e.op = "save" /\ e.out = "ok" /\ e.bytes # Encode(e.text)
        THEN {"save-writes-rendered-text-as-utf8"} ELSE {})
  \cup (IF e.op = "save" /\ e.out = "ok" /\ ~MatchRender(tree, Lines(e.text))
        THEN {"save-is-the-visible-tree"} ELSE {})

TraceInit == /\ t \in DOMAIN Traces
             /\ i = 0 /\ tree = <<>> /\ mets = <<>> /\ ok = TRUE
TraceNext ==
  /\ i < Len(Traces[t].ev)
  /\ i' = i + 1
  /\ t' = t
  /\ IF ~ok THEN UNCHANGED <<tree, mets, ok>>
     ELSE LET e == Ev
              x == Expect(e)
              bad == Verdict(e, x)
          IN /\ tree' = x.tree
             /\ mets' = x.mets
             /\ ok' = (bad = {})
             /\ bad # {} => PrintT("@@" \o ToJson([t |-> t, i |-> i + 1, bad |-> bad]))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
