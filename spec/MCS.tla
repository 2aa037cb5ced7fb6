---- MODULE MCS ----
EXTENDS MCStage2
PtsV == {-1, 0, 2}
TargetV == -1
====
