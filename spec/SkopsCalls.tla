----------------------------- MODULE SkopsCalls ------------------------------
(* Calls of the library in one process (C20).                                 *)
(*                                                                            *)
(* Threads start calls [op, obj]; a call works through the parts of its       *)
(* object one by one, remembering in the memo of its own context what it made *)
(* of a part, collects its result in its own buffer and finishes. Parts of    *)
(* different objects have the same keys (names, hashes, addresses of freed    *)
(* objects, file names ...). Cards keep their own content from call to call.  *)
(* Callers may change what was returned to them ("spoil").                    *)
(*                                                                            *)
(* Leak selects how an implementation could go wrong; with "none" every       *)
(* finished call has the result it would have as the first and only call of   *)
(* a process, with each of the others TLC finds a counterexample, so that the *)
(* histories and schedules of the instance are enough to see the fault:       *)
(*  memo      the memo lives as long as the process                           *)
(*  memofail  a shared memo which is only cleared by calls that succeed       *)
(*  memoend   a shared memo which is cleared when a call ends, not before     *)
(*  buffer    the result is collected in one buffer, emptied at the start     *)
(*  alias     what was returned is kept and handed out again                  *)
(*  current   the object at work is found through a variable of the process   *)
(*  cards     cards share their content                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, Ops, Objs, Failing, MaxCalls, NParts, Spoils, Leak

VARIABLES th,      \* thread -> [st, op, obj, pos, memo, out]
          shared,  \* [memo, out, kept, cur, card]
          cards,   \* card -> what was done to it
          hist,    \* finished and running calls in the order of their starts
          sched,   \* threads in the order of their steps
          spoilt   \* number of spoils
vars == <<th, shared, cards, hist, sched, spoilt>>

Parts(o) == [j \in 1..NParts |-> [k |-> j, v |-> 10 * o + j]]
Fails(op, o) == op # "card" /\ o \in Failing
\* what a call returns when it is the only one; n: earlier operations on the same card
Pure(op, o, n) ==
  IF op = "card" THEN [ok |-> TRUE, out |-> [j \in 1..(n + 1) |-> o]]
  ELSE IF Fails(op, o) THEN [ok |-> FALSE, out |-> <<>>]
  ELSE [ok |-> TRUE, out |-> [j \in 1..NParts |-> Parts(o)[j].v]]

Idle == [st |-> "idle", op |-> "", obj |-> 0, pos |-> 0, memo |-> <<>>, out |-> <<>>, h |-> 0]
Init == /\ th = [t \in Threads |-> Idle]
        /\ shared = [memo |-> <<>>, out |-> <<>>, kept |-> <<>>, cur |-> 0, card |-> <<>>]
        /\ cards = [o \in Objs |-> <<>>]
        /\ hist = <<>> /\ sched = <<>> /\ spoilt = 0

Mine(t) == Cardinality({h \in DOMAIN hist : hist[h].t = t})
SharedMemo == Leak \in {"memo", "memofail", "memoend"}

Start(t, op, o) ==
  /\ th[t].st = "idle" /\ Mine(t) < MaxCalls
  \* one card is not used by two threads at once
  /\ op = "card" => \A u \in Threads : ~(th[u].st = "run" /\ th[u].op = "card" /\ th[u].obj = o)
  /\ th' = [th EXCEPT ![t] = [Idle EXCEPT !.st = "run", !.op = op, !.obj = o, !.pos = 1, !.h = Len(hist) + 1]]
  /\ hist' = Append(hist, [t |-> t, op |-> op, obj |-> o, done |-> FALSE, spoil |-> FALSE,
                           n |-> Len(cards[o]), res |-> [ok |-> FALSE, out |-> <<>>]])
  /\ shared' = [shared EXCEPT !.cur = o, !.out = IF Leak = "buffer" THEN <<>> ELSE @]
  /\ sched' = Append(sched, t)
  /\ UNCHANGED <<cards, spoilt>>

Get(m, k) == {x \in {m[j] : j \in DOMAIN m} : x.k = k}
Step(t) ==
  LET c == th[t]
      o == IF Leak = "current" THEN shared.cur ELSE c.obj
      p == Parts(o)[c.pos]
      m == IF SharedMemo THEN shared.memo ELSE c.memo
      hit == Get(m, p.k)
      v == IF hit = {} THEN p.v ELSE (CHOOSE x \in hit : TRUE).v
      m2 == IF hit = {} THEN Append(m, p) ELSE m
  IN
  /\ c.st = "run" /\ c.op # "card" /\ c.pos <= NParts
  /\ ~(Fails(c.op, c.obj) /\ c.pos = NParts)
  /\ th' = [th EXCEPT ![t].pos = @ + 1, ![t].memo = IF SharedMemo THEN @ ELSE m2,
                      ![t].out = IF Leak = "buffer" THEN @ ELSE Append(@, v)]
  /\ shared' = [shared EXCEPT !.memo = IF SharedMemo THEN m2 ELSE @,
                              !.out = IF Leak = "buffer" THEN Append(@, v) ELSE @]
  /\ sched' = Append(sched, t)
  /\ UNCHANGED <<cards, hist, spoilt>>

Kept(c) == {x \in {shared.kept[j] : j \in DOMAIN shared.kept} : x.op = c.op /\ x.obj = c.obj}
Finish(t) ==
  LET c == th[t]
      fail == Fails(c.op, c.obj)
      out == IF Leak = "buffer" THEN shared.out ELSE c.out
      kept == Kept(c)
      res == IF fail THEN [ok |-> FALSE, out |-> <<>>]
             ELSE IF c.op = "card"
             THEN [ok |-> TRUE, out |-> IF Leak = "cards" THEN Append(shared.card, c.obj)
                                        ELSE Append(cards[c.obj], c.obj)]
             ELSE [ok |-> TRUE,
                   out |-> IF Leak = "alias" /\ kept # {} THEN (CHOOSE x \in kept : TRUE).out ELSE out]
  IN
  /\ c.st = "run"
  /\ IF c.op = "card" THEN TRUE ELSE IF fail THEN c.pos = NParts ELSE c.pos = NParts + 1
  /\ hist' = [hist EXCEPT ![c.h].done = TRUE, ![c.h].res = res]
  /\ cards' = IF c.op = "card" THEN [cards EXCEPT ![c.obj] = Append(@, c.obj)] ELSE cards
  /\ shared' = [shared EXCEPT
       !.memo = IF Leak = "memoend" \/ (Leak = "memofail" /\ ~fail) THEN <<>> ELSE @,
       !.card = IF c.op = "card" /\ Leak = "cards" THEN Append(@, c.obj) ELSE @,
       !.kept = IF Leak = "alias" /\ kept = {} /\ ~fail /\ c.op # "card"
                THEN Append(@, [op |-> c.op, obj |-> c.obj, out |-> res.out]) ELSE @]
  /\ th' = [th EXCEPT ![t] = Idle]
  /\ sched' = Append(sched, t)
  /\ UNCHANGED spoilt

\* the caller changes what it got from a finished call
Spoil(h) ==
  /\ spoilt < Spoils /\ hist[h].done /\ hist[h].res.ok /\ hist[h].op # "card" /\ ~hist[h].spoil
  /\ \A t \in Threads : th[t].st = "idle"
  /\ h = Len(hist)
  /\ hist' = [hist EXCEPT ![h].spoil = TRUE]
  /\ shared' = [shared EXCEPT !.kept = [j \in DOMAIN @ |->
       IF @[j].op = hist[h].op /\ @[j].obj = hist[h].obj THEN [@[j] EXCEPT !.out = <<0>>] ELSE @[j]]]
  /\ spoilt' = spoilt + 1
  /\ UNCHANGED <<th, cards, sched>>

Next == \/ \E t \in Threads : (\E op \in Ops : \E o \in Objs : Start(t, op, o)) \/ Step(t) \/ Finish(t)
        \/ \E h \in DOMAIN hist : Spoil(h)
Spec == Init /\ [][Next]_vars

Quiet == \A t \in Threads : th[t].st = "idle"
Independent == \A h \in DOMAIN hist : hist[h].done => hist[h].res = Pure(hist[h].op, hist[h].obj, hist[h].n)
CardsApart == \A o \in Objs : \A j \in DOMAIN cards[o] : cards[o][j] = o
Emit == (Leak = "none" /\ Quiet /\ (\A t \in Threads : Mine(t) = MaxCalls)) =>
        PrintT("@@" \o ToJson([h |-> [j \in DOMAIN hist |->
          [t |-> hist[j].t, op |-> hist[j].op, obj |-> hist[j].obj, spoil |-> hist[j].spoil]], s |-> sched]))
=============================================================================
