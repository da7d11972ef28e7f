------------------------------ MODULE SkopsValueMC ------------------------------
(* All values of a bounded grammar: a container around containers around atoms.*)
EXTENDS SkopsValue, Json
CONSTANTS Level,      \* 1: containers of atoms, 2: containers of those
          Width       \* number of parts
At(k, v) == Mk(k, v, <<>>)
\* texts are equal across kinds where JSON cannot tell the keys apart: 1, "1", 1 of numpy
KeyAtoms == {At("str", "1"), At("str", "a"), At("int", "1"), At("float", "1.5"), At("npint", "1"),
             At("npfloat", "1.5"), At("none", "null"), At("bool", "true"), At("str", "true"), At("str", "null")}
OddKeys == {At("nplong", "1.5"), At("bytes", "1"), At("type", "int"), Mk("tuple", "", <<>>)}
Few == {At("int", "1"), At("str", "a")}
Atoms == KeyAtoms \cup {At(k, "1") : k \in Opaque}
Pool == IF Level = 1 THEN Atoms ELSE Few
Item(key, val) == Mk("item", "", <<key, val>>)
\* (in Python these are the same key)
SameKey(a, b) == \/ a = b \/ {a, b} \subseteq {At("int", "1"), At("npint", "1"), At("bool", "true")}
                 \/ {a, b} \subseteq {At("float", "1.5"), At("npfloat", "1.5"), At("nplong", "1.5")}
Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
KeySeqs(n) == {s \in Seqs(KeyAtoms \cup OddKeys, n) : \A i, j \in DOMAIN s : i # j => ~SameKey(s[i], s[j])}
AttrDict(x) == Mk("dict", "", <<Item(At("str", "a"), x)>>)

(* the enumeration, as nested choices *)
VARIABLES val, stage
Value1(P) ==
  \/ \E k \in {"list", "tuple"} : \E s \in Seqs(P, Width) : val' = Mk(k, "", s)
  \/ \E s \in Seqs(P, Width) : (\A i, j \in DOMAIN s : i # j => ~SameKey(s[i], s[j]))
        /\ (\A i \in DOMAIN s : Hashable(s[i])) /\ val' = Mk("set", "", s)
  \/ \E k \in Dicts : \E s \in KeySeqs(Width) : \E x \in P :
        val' = Mk(k, "", [j \in DOMAIN s |-> Item(s[j], x)])
  \/ \E s \in KeySeqs(Width) : \E f \in {At("none", "null"), At("type", "1"), At("function", "1")} : \E x \in P :
        val' = Mk("ddict", "", <<f>> \o [j \in DOMAIN s |-> Item(s[j], x)])
  \/ \E a, z, st \in P : val' = Mk("slice", "", <<a, z, st>>)
  \/ \E r \in {"n", "0"} : \E s \in Seqs(P, Width) : (r = "0" => Len(s) = 1) /\ val' = Mk("oarray", r, s)
  \/ \E f \in {At("ufunc", "1"), At("type", "1"), At("function", "1")} : \E s \in Seqs(P, Width) :
        val' = Mk("partial", "", <<f>> \o s)
  \/ \E s \in Seqs(P, Width) : s # <<>> /\ val' = Mk("itemgetter", "", s)
  \/ \E k \in Instances \ {"dictsub", "listsub"} : \E x \in P : val' = Mk(k, "", <<x>>)
  \/ \E x \in P : \E s \in KeySeqs(1) : val' = Mk("dictsub", "", [j \in DOMAIN s |-> Item(s[j], x)] \o <<AttrDict(x)>>)
  \/ \E x, y \in P : val' = Mk("listsub", "", <<x, AttrDict(y)>>)
Wrap(x) ==
  \/ \E k \in {"list", "tuple", "partial", "oarray", "plain", "getset", "reduce", "slots"} :
       val' = Mk(k, IF k = "oarray" THEN "n" ELSE "",
                 IF k = "partial" THEN <<At("ufunc", "1"), x>> ELSE <<x>>)
  \/ val' = Mk("list", "", <<At("int", "1"), x, x>>)
  \/ \E key \in {At("str", "a"), At("none", "null")} : val' = Mk("dict", "", <<Item(key, x)>>)
  \/ val' = Mk("ddict", "", <<At("type", "1"), Item(At("str", "a"), x)>>)
  \/ val' = Mk("slice", "", <<x, At("none", "null"), At("none", "null")>>)
  \/ val' = Mk("dictsub", "", <<Item(At("str", "a"), x), AttrDict(x)>>)
Init == val = At("none", "null") /\ stage = 0
Next == \/ stage = 0 /\ stage' = 1 /\ (Value1(Pool) \/ \E a \in Atoms : val' = a)
        \/ stage \in 1..(Level - 1) /\ stage' = stage + 1 /\ Wrap(val)
Spec == Init /\ [][Next]_<<val, stage>>

Atoms_ == Atoms \cup OddKeys
\* what loads is what was dumped
Faithful == LET n == Enc(val) IN n.ld # "refuse" => Dec(n, Atoms_) = val
\* ... again and again
Stable == LET n == Enc(val) IN n.ld # "refuse" => Enc(Dec(n, Atoms_)) = n
\* the supported families are never refused
NotRefused == Supported(val) => Enc(val).ld # "refuse"
Emit == stage = 0 \/ stage < Level \/ PrintT("@@" \o ToJson([val |-> val, sup |-> Supported(val), enc |-> Enc(val).ld # "refuse"]))
=============================================================================
