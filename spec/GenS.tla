---- MODULE GenS ----
EXTENDS GenStage2
TrialPtsV == {10, 12, 14, -6}
OptPtsV == {11, 13, -5, 21}
TargetsV == {-9, 0, 1}
====
