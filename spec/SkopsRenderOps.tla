----------------------------- MODULE SkopsRenderOps ------------------------------
(* What visualize emits.  A rendering is a sequence of rows in pre-order,      *)
(*   [lv, self, safe]                                                          *)
(* lv the depth; self: the row itself names nothing untrusted; safe: neither   *)
(* does anything at or beneath it.                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Modes == {"all", "untrusted", "trusted"}

(* ---------------------------------------------------------- well-formed rows *)
\* root first, each row at most one level deeper than the one before
WellFormed(rows) ==
  /\ Len(rows) > 0 /\ rows[1].lv = 0
  /\ \A j \in 2..Len(rows) : rows[j].lv >= 1 /\ rows[j].lv <= rows[j-1].lv + 1
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Parent(rows, k) == MaxOf({j \in 1..(k - 1) : rows[j].lv < rows[k].lv})
\* the rows at or beneath row k
Beneath(rows, k) ==
  LET after == {j \in (k + 1)..Len(rows) : rows[j].lv <= rows[k].lv}
      last == IF after = {} THEN Len(rows) ELSE MinOf(after) - 1
  IN k..last
SafeOf(rows, k) == \A j \in Beneath(rows, k) : rows[j].self
\* the marks agree with each other
Marked(rows) ==
  /\ \A k \in DOMAIN rows : rows[k].safe => rows[k].self
  /\ \A k \in 2..Len(rows) : rows[Parent(rows, k)].safe => rows[k].safe
\* fully safe rows are exactly the ones without anything untrusted beneath
Exact(rows) == \A k \in DOMAIN rows : rows[k].safe = SafeOf(rows, k)

(* ------------------------------------------------------------- what is shown *)
Visible(row, k, show) == CASE show = "all" -> TRUE [] k = 1 -> TRUE
                           [] show = "untrusted" -> ~row.safe
                           [] OTHER -> row.self
RECURSIVE Shown(_, _, _, _, _)
\* path: for each level whether the row of this level is visible
Shown(rows, k, show, path, acc) ==
  IF k > Len(rows) THEN acc
  ELSE LET r == rows[k]
           v == Visible(r, k, show)
           p == Append(SubSeq(path, 1, r.lv), v)
           up == Cardinality({j \in 1..r.lv : p[j]})
       IN Shown(rows, k + 1, show, p,
                IF v THEN Append(acc, [lv |-> up, self |-> r.self, safe |-> r.safe]) ELSE acc)
Show(rows, show) == Shown(rows, 1, show, <<>>, <<>>)
=============================================================================
