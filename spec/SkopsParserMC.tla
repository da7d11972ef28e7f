--------------------------- MODULE SkopsParserMC -----------------------------
(* Every document of at most MaxLen items over header levels Levels, the      *)
(* titles "A" and "B/C" and one kind of block.                                *)
EXTENDS SkopsParser, Json
CONSTANTS MaxLen, Levels, Titles
VARIABLES doc, st
vars == <<doc, st>>
TitleText(n) == IF n = 1 THEN <<65>> ELSE <<66, 47, 67>>
Items == [t : {"H"}, lvl : Levels, inl : {<<[t |-> "Str", s |-> TitleText(n)]>> : n \in 1..Titles}]
         \cup {[t |-> "B", txt |-> <<112, 48 + Len(doc)>>]}
Init == doc = <<>> /\ st = St0
Next == /\ Len(doc) < MaxLen /\ st.out = "ok"
        /\ \E it \in Items :
             /\ doc' = Append(doc, it)
             /\ st' = StepItem(st, it)
             /\ PrintT("@@" \o ToJson([doc |-> doc', out |-> st'.out, secs |-> st'.secs]))
Spec == Init /\ [][Next]_vars

\* nested under the nearest preceding header of lower level
Hdrs == SelectSeq(doc, LAMBDA x : x.t = "H")
ParentOf(j) == LET c == {k \in 1..(j-1) : Hdrs[k].lvl < Hdrs[j].lvl /\
                          \A m \in (k+1)..(j-1) : Hdrs[m].lvl >= Hdrs[j].lvl}
               IN IF c = {} THEN 0 ELSE CHOOSE k \in c : TRUE
DepthParent(j) ==  \* parent according to the depths of the sections
  LET c == {k \in 1..(j-1) : st.secs[k].d < st.secs[j].d} IN
  IF c = {} THEN 0 ELSE CHOOSE k \in c : \A m \in c : m <= k
InvNearest ==
  st.out = "ok" =>
    /\ Len(st.secs) = Len(Hdrs)
    /\ \A j \in DOMAIN Hdrs :
         LET low == {k \in 1..(j-1) : Hdrs[k].lvl < Hdrs[j].lvl} IN
         DepthParent(j) = IF low = {} THEN 0 ELSE CHOOSE k \in low : \A m \in low : m <= k
\* depth increases by one from parent to child
InvDepth == \A j \in DOMAIN st.secs :
  st.secs[j].d = IF DepthParent(j) = 0 THEN 1 ELSE st.secs[DepthParent(j)].d + 1
=============================================================================
