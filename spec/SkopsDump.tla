------------------------------- MODULE SkopsDump -------------------------------
(* Dumping a graph of objects: every object gets the address it lives at as its *)
(* identifier, and while it is dumped temporary objects are made (the states    *)
(* that objects return, lists of keys, ...) which may be put at any address     *)
(* that is free.  Loading makes one object of the nodes with one identifier.    *)
(*                                                                              *)
(* A graph g has g.kind[o] and g.kids[o] (a sequence of objects), for           *)
(* o \in 1..Len(g.kind); its root is the last one.  Kinds of objects:           *)
(*   cont   mutable, holds its children                                         *)
(*   imm    immutable, holds its children                                       *)
(*   fresh  mutable, makes a new object that holds its children when dumped     *)
(*   leaf   mutable, its data is a member of the archive                        *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Functions, TLC, Json
CONSTANTS N,         \* objects
          W,         \* references from an object
          Keep,      \* TRUE: the dumper keeps all objects alive until the end
          Run        \* FALSE: only enumerate the graphs
VARIABLES g, at, live, stack, states, out, members, done
vars == <<g, at, live, stack, states, out, members, done>>

Kinds == {"cont", "imm", "fresh", "leaf"}
KidSeqs(o) == UNION {[1..n -> 1..(o - 1)] : n \in 0..W}
RECURSIVE Below(_, _)
Below(kids, S) == LET S2 == S \cup UNION {ToSet(kids[o]) : o \in S} IN
                  IF S2 = S THEN S ELSE Below(kids, S2)

\* ------------------------------------------------------------ what has to hold
\* pairs: set of <<object, identifier>>, one for every reference that was dumped
SharedPreserved(pairs) == \A p, q \in pairs : p[1] = q[1] => p[2] = q[2]
DistinctPreserved(pairs) == \A p, q \in pairs : p[2] = q[2] => p[1] = q[1]

\* ------------------------------------------------------------ the dumper
Root == Len(g.kind)
Temps == (N + 1)..(2 * N)                  \* temporary o + N holds the state of object o
KindOf(o) == IF o > N THEN "cont" ELSE g.kind[o]
KidsOf(o) == IF o > N THEN g.kids[o - N] ELSE IF g.kind[o] = "fresh" THEN <<o + N>> ELSE g.kids[o]
Addrs == 1..(2 * N)
Free == Addrs \ {at[o] : o \in live}
None == 0

Init ==
  \E n \in 1..N : \E kind \in [1..n -> Kinds] :
  \E a \in KidSeqs(1) : \E b \in (IF n > 1 THEN KidSeqs(2) ELSE {<<>>}) :
  \E c \in (IF n > 2 THEN KidSeqs(3) ELSE {<<>>}) : \E d \in (IF n > 3 THEN KidSeqs(4) ELSE {<<>>}) :
    LET kids == SubSeq(<<a, b, c, d>>, 1, n) IN
    /\ \A o \in 1..n : kind[o] = "leaf" => kids[o] = <<>>
    /\ Below(kids, {n}) = 1..n
    /\ g = [kind |-> kind, kids |-> kids]
    /\ at = [o \in 1..(2 * N) |-> IF o <= n THEN o ELSE None]
    /\ live = 1..n /\ stack = <<>> /\ states = [x \in Addrs |-> None]
    /\ out = {} /\ members = <<>> /\ done = FALSE

\* reach object o (its address is known); what is above it on the stack waits
Visit(o, addr, rest) ==
  /\ out' = out \cup {<<o, addr, IF states[addr] = None THEN o ELSE states[addr]>>}
  /\ IF states[addr] = None
     THEN /\ states' = [states EXCEPT ![addr] = o]
          /\ stack' = Append(rest, [o |-> o, todo |-> KidsOf(o)])
          /\ members' = IF KindOf(o) = "leaf" THEN Append(members, addr) ELSE members
     ELSE stack' = rest /\ UNCHANGED <<states, members>>

Start == /\ stack = <<>> /\ ~done /\ out = {}
         /\ Visit(Root, at[Root], <<>>) /\ UNCHANGED <<g, at, live, done>>

Top == stack[Len(stack)]
Down ==
  /\ stack # <<>> /\ Top.todo # <<>>
  /\ LET o == Top.todo[1]
         rest == [stack EXCEPT ![Len(stack)].todo = Tail(@)]
     IN IF o > N
        THEN \E addr \in Free : /\ at' = [at EXCEPT ![o] = addr] /\ live' = live \cup {o}
                                /\ Visit(o, addr, rest) /\ UNCHANGED <<g, done>>
        ELSE Visit(o, at[o], rest) /\ UNCHANGED <<g, at, live, done>>

\* an object is finished: unless it is kept, a temporary one ceases to exist
Up == /\ stack # <<>> /\ Top.todo = <<>>
      /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
      /\ live' = IF Keep \/ Top.o <= N THEN live ELSE live \ {Top.o}
      /\ UNCHANGED <<g, at, states, out, members, done>>

Finish == /\ stack = <<>> /\ out # {} /\ ~done /\ done' = TRUE
          /\ UNCHANGED <<g, at, live, stack, states, out, members>>

Next == Run /\ (Start \/ Down \/ Up \/ Finish)
Spec == Init /\ [][Next]_vars

Pairs == {<<e[1], e[2]>> : e \in out}
Shared == SharedPreserved(Pairs)
Distinct == DistinctPreserved(Pairs)
Content == \A e \in out : e[3] = e[1]                \* a node has the content of its own object
StoredOnce == /\ \A x, y \in DOMAIN members : members[x] = members[y] => x = y
              /\ done => Len(members) = Cardinality({o \in DOMAIN g.kind : g.kind[o] = "leaf"})
Emit == (out = {} /\ ~Run) => PrintT("@@" \o ToJson(g))
=============================================================================
