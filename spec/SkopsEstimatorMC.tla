---------------------------- MODULE SkopsEstimatorMC ----------------------------
(* the compositions (NextC: no life) and the lives of one estimator, separately   *)
EXTENDS SkopsEstimator
NextC == Grow \/ Make
SpecC == Init /\ [][NextC]_vars
InitL == Init /\ kind = <<"leafC">>
NextL == Make \/ Live \/ Dump \/ Load \/ After
SpecL == InitL /\ [][NextL]_vars
EmitLife == phase = "loaded" => PrintT("@@" \o ToJson([life |-> log]))
=============================================================================
