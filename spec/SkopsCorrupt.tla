------------------------------ MODULE SkopsCorrupt ------------------------------
(* Reading an arbitrary schema: a tree of states of which each may bear any      *)
(* identifier, also that of another state or of one that encloses it.  What is   *)
(* made of it is a graph of nodes that may share nodes and have cycles.  It is   *)
(* built, audited, constructed and shown; all of these end, in a number of steps *)
(* bounded by the size of the schema, with a result or an exception.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS N,        \* states
          K,        \* identifiers (0: none)
          Limit     \* rows that are shown before giving up
VARIABLES par, id,          \* the schema: enclosing state, identifier
          pc, todo, memo, built, edges, seen, onpath, finished, rows, steps, out
vars == <<par, id, pc, todo, memo, built, edges, seen, onpath, finished, rows, steps, out>>

n == Len(par)
Kids(s) == {j \in 1..n : par[j] = s}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                                     IN <<m>> \o SeqOf(S \ {m})
Succ(x) == {e[2] : e \in {f \in edges : f[1] = x}}

Init ==
  \E m \in 1..N : \E p \in [1..m -> 0..(m - 1)] : \E q \in [1..m -> 0..K] :
    /\ p[1] = 0 /\ \A j \in 2..m : p[j] \in 1..(j - 1)
    \* states are numbered in the order they are read, identifiers as they appear
    /\ \A j \in 3..m : p[j] = j - 1 \/ \E a \in 1..(j - 1) : p[j] = p[a] \/ p[j] = p[j - 1]
    /\ \A j \in 1..m : q[j] > 1 => \E i \in 1..(j - 1) : q[i] = q[j] - 1
    /\ par = p /\ id = q
    /\ pc = "build" /\ todo = <<<<0, 1>>>> /\ memo = [x \in 1..K |-> 0] /\ built = {} /\ edges = {}
    /\ seen = {} /\ onpath = <<>> /\ finished = {} /\ rows = 0 /\ steps = 0 /\ out = [x \in {} |-> ""]

\* ---- build: a state whose identifier is known is not read again
Build ==
  /\ pc = "build" /\ todo # <<>>
  /\ LET par1 == todo[1][1]
         s == todo[1][2]
         old == IF id[s] = 0 THEN 0 ELSE memo[id[s]]
         ks == SeqOf(Kids(s))
     IN IF old # 0
        THEN /\ edges' = edges \cup {<<par1, old>>} /\ todo' = Tail(todo) /\ UNCHANGED <<built, memo>>
        ELSE /\ edges' = edges \cup {<<par1, s>>} /\ built' = built \cup {s}
             /\ memo' = (IF id[s] = 0 THEN memo ELSE [memo EXCEPT ![id[s]] = s])
             /\ todo' = [j \in 1..Len(ks) |-> <<s, ks[j]>>] \o Tail(todo)
  /\ steps' = steps + 1
  /\ UNCHANGED <<par, id, pc, seen, onpath, finished, rows, out>>
Built == /\ pc = "build" /\ todo = <<>> /\ pc' = "audit" /\ todo' = <<1>> /\ steps' = 0 /\ seen' = {1}
         /\ UNCHANGED <<par, id, memo, built, edges, onpath, finished, rows, out>>

\* ---- audit: every node once
Audit ==
  /\ pc = "audit" /\ todo # <<>>
  /\ LET new == SeqOf(Succ(todo[1]) \ seen) IN
     /\ seen' = seen \cup Succ(todo[1])
     /\ todo' = Tail(todo) \o new
  /\ steps' = steps + 1
  /\ UNCHANGED <<par, id, pc, memo, built, edges, onpath, finished, rows, out>>
Audited == /\ pc = "audit" /\ todo = <<>> /\ pc' = "construct" /\ steps' = 0
           /\ out' = [audit |-> "ok"] /\ onpath' = <<<<1, SeqOf(Succ(1))>>>>
           /\ UNCHANGED <<par, id, todo, memo, built, edges, seen, finished, rows>>

\* ---- construct: depth first, a node once; needing a node that is being made is an error
OnPath(x) == \E j \in DOMAIN onpath : onpath[j][1] = x
Construct ==
  /\ pc = "construct" /\ onpath # <<>>
  /\ LET top == onpath[Len(onpath)]
         up == SubSeq(onpath, 1, Len(onpath) - 1)
     IN IF top[2] = <<>>
        THEN /\ finished' = finished \cup {top[1]} /\ onpath' = up /\ UNCHANGED <<out, pc>>
        ELSE LET x == top[2][1]
                 rest == Append(up, <<top[1], Tail(top[2])>>)
             IN IF OnPath(x)
                THEN /\ out' = [audit |-> "ok", construct |-> "raise"] /\ pc' = "show0"
                     /\ onpath' = <<>> /\ UNCHANGED finished
                ELSE /\ onpath' = (IF x \in finished THEN rest ELSE Append(rest, <<x, SeqOf(Succ(x))>>))
                     /\ UNCHANGED <<out, pc, finished>>
  /\ steps' = steps + 1
  /\ UNCHANGED <<par, id, todo, memo, built, edges, seen, rows>>
Constructed ==
  /\ pc \in {"construct", "show0"} /\ onpath = <<>>
  /\ out' = (IF pc = "construct" THEN [audit |-> "ok", construct |-> "ok"] ELSE out)
  /\ pc' = "show" /\ steps' = 0 /\ rows' = 1 /\ onpath' = <<<<1, SeqOf(Succ(1))>>>>
  /\ UNCHANGED <<par, id, todo, memo, built, edges, seen, finished>>

\* ---- show: one row for every path to a node
Show ==
  /\ pc = "show" /\ onpath # <<>>
  /\ LET top == onpath[Len(onpath)]
         up == SubSeq(onpath, 1, Len(onpath) - 1)
         give(r) == /\ out' = [audit |-> out.audit, construct |-> out.construct, show |-> r]
                    /\ pc' = "done" /\ onpath' = <<>>
     IN IF top[2] = <<>>
        THEN IF up = <<>> THEN give("ok") /\ UNCHANGED rows ELSE onpath' = up /\ UNCHANGED <<out, pc, rows>>
        ELSE LET x == top[2][1]
                 rest == Append(up, <<top[1], Tail(top[2])>>)
             IN IF OnPath(x) \/ rows >= Limit THEN give("raise") /\ UNCHANGED rows
                ELSE /\ rows' = rows + 1 /\ onpath' = Append(rest, <<x, SeqOf(Succ(x))>>)
                     /\ UNCHANGED <<out, pc>>
  /\ steps' = steps + 1
  /\ UNCHANGED <<par, id, todo, memo, built, edges, seen, finished>>

Next == Build \/ Built \/ Audit \/ Audited \/ Construct \/ Constructed \/ Show
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Terminates == <>(pc = "done")
Bounded == /\ pc = "build" => steps <= n
           /\ pc = "audit" => steps <= Cardinality(built)
           /\ pc = "construct" => steps <= (2 * Cardinality(built)) + Cardinality(edges)
           /\ pc = "show" => steps <= 2 * Limit
           /\ rows <= Limit
Cyclic == \E x \in built : \E c \in [1..n -> built] :
             /\ c[1] = x /\ \E l \in 1..n : (<<c[l], x>> \in edges /\ \A j \in 1..(l - 1) : <<c[j], c[j + 1]>> \in edges)
Outcome == pc = "done" => (out.audit = "ok" /\ (n <= 4 => ((out.construct = "raise") <=> Cyclic)))
Emit == pc = "done" => PrintT("@@" \o ToJson([par |-> par, id |-> id, out |-> out]))
=============================================================================
