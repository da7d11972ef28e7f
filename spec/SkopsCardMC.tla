---------------------------- MODULE SkopsCardMC ------------------------------
(* Bounded instance: every history of at most MaxLen mutating calls over a    *)
(* small universe of paths.  Each transition is printed as                    *)
(*   [h: history of operations, op: operation, out: outcome, tree: tree after,*)
(*    sel: selected section, toc: table of contents]                          *)
EXTENDS SkopsCard, Json
CONSTANTS MaxLen, Wide

VARIABLES tree, hist
vars == <<tree, hist>>
view == tree

A == <<65>>
B == <<66>>
\*                 A    B    A/B          A/A         " B / A "                 A\/B
AddPaths == {A, B, <<65,47,66>>, <<65,47,65>>, <<32,66,32,47,32,65,32>>, <<65,92,47,66>>}
  \cup (IF Wide THEN {<<92,47>>, <<66,47,65,47,66>>, <<65,92,92,47,66>>, <<31,65>>,
                      <<92,47,65>>, <<65,92,47,32>>} ELSE {<<92,47>>, <<66,47,65,47,66>>})
\* reads also use empty and missing names:  ""  "/"  "A/"  "/A"  "A//B"  " "  "C"
ReadPaths == AddPaths \cup {<<>>, <<47>>, <<65,47>>, <<47,65>>, <<65,47,47,66>>, <<32>>, <<67>>}
Chains == {<<A, B>>, <<A, A>>, <<B, A, B>>, <<<<66,47,65>>, B>>, <<A, <<>>>>, <<B, <<47>>>>}
Lists == {<<A>>, <<A, B>>, <<B, A>>, <<A, <<>>>>, <<<<65,47,66>>>>, <<<<32,66>>, A>>,
          <<B, A, B>>, <<<<>>>>}

Ops ==
  [op : {"add"}, path : AddPaths, c : {<<120>>}, f : {FALSE}]
  \cup [op : {"add"}, path : AddPaths, c : {<<121>>}, f : {TRUE}]
  \cup [op : {"select"}, chain : {<<p>> : p \in ReadPaths} \cup Chains]
  \cup [op : {"delete"}, path : ReadPaths]
  \cup [op : {"deletelist"}, parts : Lists]
  \cup [op : {"set"}, path : {A, <<65,47,66>>, B}, field : {"v"}, val : {FALSE, TRUE}]
  \cup [op : {"set"}, path : {A, B}, field : {"f"}, val : {TRUE}]
  \cup [op : {"set"}, path : {A, <<66,47,65>>}, field : {"t"}, val : {<<84>>}]

Outcome(o) ==
  CASE o.op = "add" -> "ok"
    [] o.op = "select" -> ChainLookup(tree, o.chain)
    [] o.op = "delete" -> Lookup(tree, Split(o.path))
    [] o.op = "deletelist" -> Lookup(tree, o.parts)
    [] o.op = "set" -> Lookup(tree, Split(o.path))

After(o) ==
  IF Outcome(o) # "ok" THEN tree
  ELSE CASE o.op = "add" -> Put(tree, Split(o.path),
                                Plain(Leaf(Split(o.path)), o.c, o.f))
         [] o.op = "select" -> tree
         [] o.op = "delete" -> Del(tree, Split(o.path))
         [] o.op = "deletelist" -> Del(tree, o.parts)
         [] o.op = "set" -> Upd(tree, Split(o.path), o.field, o.val)

Step(o) ==
  /\ tree' = After(o)
  /\ hist' = Append(hist, o)
  /\ PrintT("@@" \o ToJson(
       [h |-> hist, op |-> o, out |-> Outcome(o), tree |-> ViewAll(tree'),
        sel |-> IF o.op = "select" /\ Outcome(o) = "ok"
                THEN <<View(Get(tree, Flat(o.chain)))>> ELSE <<>>,
        toc |-> TocText(tree'),
        lines |-> LET ps == NormPats(Pats(tree', 1)) IN [i \in DOMAIN ps |-> ps[i].s]]))

\* two starting points: an empty card and one with two subtrees (set up by three adds)
Seed == <<[op |-> "add", path |-> <<65,47,66>>, c |-> <<120>>, f |-> FALSE],
          [op |-> "add", path |-> <<65,47,67>>, c |-> <<122>>, f |-> FALSE],
          [op |-> "add", path |-> <<66,47,65,47,66>>, c |-> <<120>>, f |-> FALSE]>>
SeedTree ==
  Put(Put(Put(<<>>, <<A, B>>, Plain(B, <<120>>, FALSE)), <<A, <<67>>>>, Plain(<<67>>, <<122>>, FALSE)),
      <<B, A, B>>, Plain(B, <<120>>, FALSE))
Init == \/ tree = <<>> /\ hist = <<>>
        \/ tree = SeedTree /\ hist = Seed
Depth == IF Len(hist) >= 3 /\ SubSeq(hist, 1, 3) = Seed THEN Len(hist) - 3 ELSE Len(hist)
Next == Depth < MaxLen /\ \E o \in Ops : Step(o)
Spec == Init /\ [][Next]_vars

(* ----------------- properties of the design, checked by TLC --------------- *)
RECURSIVE AllParts(_, _)
AllParts(kids, pre) ==
  UNION {{Append(pre, kids[i].k)} \cup AllParts(kids[i].sub, Append(pre, kids[i].k))
         : i \in DOMAIN kids}
\* keys are unique among siblings
RECURSIVE Unique(_)
Unique(kids) ==
  /\ \A i, j \in DOMAIN kids : i # j => kids[i].k # kids[j].k
  /\ \A i \in DOMAIN kids : Unique(kids[i].sub)
InvUnique == Unique(tree)

LastOp == hist'[Len(hist')]
Keys(kids) == [i \in DOMAIN kids |-> kids[i].k]
KeysAt(t, parts) == Keys(IF parts = <<>> THEN t ELSE Get(t, parts).sub)
Pre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Own(n) == [n EXCEPT !.sub = <<>>]
\* add never disturbs other sections, keeps positions, creates ancestors with empty content
AddLocal ==
  [][ (hist' # hist /\ LastOp.op = "add") =>
      LET p == Split(LastOp.path) IN
      /\ \A q \in AllParts(tree, <<>>) :
           /\ Exists(tree', q)
           /\ q # p => Own(Get(tree', q)) = Own(Get(tree, q))
           /\ Pre(KeysAt(tree, q), KeysAt(tree', q))
      /\ Pre(Keys(tree), Keys(tree'))
      /\ Get(tree', p).c = LastOp.c
      /\ \A q \in AllParts(tree', <<>>) \ AllParts(tree, <<>>) :
           q = p \/ (Pre(q, p) /\ Get(tree', q).c = <<>>) ]_vars
\* delete removes exactly the subtree
DeleteExact ==
  [][ (hist' # hist /\ LastOp.op = "delete" /\ tree' # tree) =>
      LET p == Split(LastOp.path) IN
      /\ AllParts(tree', <<>>) = {q \in AllParts(tree, <<>>) : ~Pre(p, q)}
      /\ \A q \in AllParts(tree', <<>>) : Own(Get(tree', q)) = Own(Get(tree, q)) ]_vars
\* the table of contents lists exactly the headings that are rendered
IsHeading(p) == p.p = "lit" /\ p.s # <<>> /\ p.s[1] = HASH
InvTocIsRender ==
  LET hs == SelectSeq(Pats(tree, 1), IsHeading) IN Len(hs) = Len(TocLines(tree, 0))
=============================================================================
