----------------------------- MODULE SkopsProtocol -----------------------------
(* How the archive format evolves (C08).  A release may change the layout of  *)
(* some node kinds; the first such change of a release bumps the protocol,    *)
(* and the loader of the layout that is replaced is kept and registered under *)
(* the protocol that is left.  Archives written at any time stay around and   *)
(* are read at any later time.                                                *)
EXTENDS SkopsLoad, Json
CONSTANTS Ks, MaxProtocol, MaxArchives
VARIABLES cur,      \* the current protocol
          layout,   \* kind -> version of the layout that dump writes now
          reg,      \* kind -> function from registered protocols to the layout they read
          archives  \* archives in existence: [kind, proto, layout]
vars == <<cur, layout, reg, archives>>

Init == /\ cur = 0 /\ layout = [k \in Ks |-> 0]
        /\ reg = [k \in Ks |-> (0 :> 0)] /\ archives = {}
\* the loader that the current release registers for kind k moves along with the protocol
Bump == /\ cur < MaxProtocol /\ cur' = cur + 1
        /\ \E C \in SUBSET Ks :
             /\ C # {}
             /\ layout' = [k \in Ks |-> IF k \in C THEN layout[k] + 1 ELSE layout[k]]
             /\ reg' = [k \in Ks |-> IF k \in C THEN reg[k] @@ (cur + 1 :> layout[k] + 1)
                        ELSE [p \in (DOMAIN reg[k] \ {cur}) \cup {cur + 1} |->
                              IF p = cur + 1 THEN layout[k] ELSE reg[k][p]]]
        /\ UNCHANGED archives
Dump == /\ Cardinality(archives) < MaxArchives
        /\ \E k \in Ks : archives' = archives \cup {[kind |-> k, proto |-> cur, layout |-> layout[k]]}
        /\ UNCHANGED <<cur, layout, reg>>
Next == Bump \/ Dump
Spec == Init /\ [][Next]_vars

\* the current dump writes what the current loader reads
CurrentReadable == \A k \in Ks : cur \in DOMAIN reg[k] /\ reg[k][cur] = layout[k]
\* the loader of the smallest protocol that is not below reads the layout of every archive
OldReadable == \A a \in archives :
   /\ HasLoader(DOMAIN reg[a.kind], a.proto)
   /\ reg[a.kind][Smallest(DOMAIN reg[a.kind], a.proto)] = a.layout
\* ... and no other choice would do: a registered loader reads exactly the protocols
\* between the previous registered one and its own
NoOtherReads == \A a \in archives : \A p \in DOMAIN reg[a.kind] :
   (reg[a.kind][p] = a.layout) = (p = Smallest(DOMAIN reg[a.kind], a.proto))
\* the rows that are replayed on the real dispatch
Emit == cur = MaxProtocol =>
        \A k \in Ks, p \in 0..cur :
           PrintT("@@" \o ToJson([reg |-> DOMAIN reg[k], proto |-> p,
                                  got |-> Smallest(DOMAIN reg[k], p)]))
=============================================================================
