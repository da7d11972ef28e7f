------------------------------- MODULE SkopsRender -------------------------------
(* Visualizing: the state machine writes the rows of an arbitrary tree one     *)
(* after the other (Row), then picks what to show (Emit).                      *)
EXTENDS SkopsRenderOps, Json
CONSTANT MaxRows
(* -------------------------------------------------------------- state machine *)
VARIABLES tree, out
Init == tree = <<>> /\ out = [show |-> "", rows |-> <<>>]
Row == /\ Len(tree) < MaxRows /\ out.show = ""
       /\ \E s \in BOOLEAN :
            IF tree = <<>> THEN tree' = <<[lv |-> 0, self |-> s]>>
            ELSE \E l \in 1..(tree[Len(tree)].lv + 1) : tree' = Append(tree, [lv |-> l, self |-> s])
       /\ out' = out
Full == [k \in DOMAIN tree |-> [lv |-> tree[k].lv, self |-> tree[k].self, safe |-> SafeOf(tree, k)]]
Emit == /\ tree # <<>> /\ out.show = "" /\ tree' = tree
        /\ \E m \in Modes : out' = [show |-> m, rows |-> Show(Full, m)]
Next == Row \/ Emit
Spec == Init /\ [][Next]_<<tree, out>>

(* ------------------------------------------------------------------ invariants *)
Untrusted == {k \in DOMAIN tree : ~tree[k].self}
TreeWellFormed == tree = <<>> \/ (WellFormed(Full) /\ Marked(Full) /\ Exact(Full))
OutWellFormed == out.show = "" \/ WellFormed(out.rows)
RootAgrees == tree = <<>> \/ (Full[1].safe = (Untrusted = {}))
\* an archive with untrusted content never renders as entirely safe
NeverSafe == (out.show \in {"all", "untrusted"} /\ Untrusted # {}) =>
                \E k \in DOMAIN out.rows : ~out.rows[k].self
AllUntrustedShown == out.show \in {"all", "untrusted"} =>
                        Cardinality({k \in DOMAIN out.rows : ~out.rows[k].self}) = Cardinality(Untrusted)
TrustedShowsTrusted == out.show = "trusted" => \A k \in 2..Len(out.rows) : out.rows[k].self
UntrustedKeepsLevels == out.show = "untrusted" => (\A k \in 2..Len(out.rows) : ~out.rows[k].safe) /\ Marked(out.rows)
PrintTree == (tree = <<>> \/ out.show # "") \/ PrintT("@@" \o ToJson(Full))
=============================================================================
