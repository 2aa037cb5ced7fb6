------------------------------- MODULE Resume -------------------------------
(* Where a run over N trials in batches of B saves (save frequency F)        *)
EXTENDS Integers, Sequences, FiniteSets
Min(a, b) == IF a < b THEN a ELSE b
\* number of completed trials after the batch that starts after c of them
After(c, N, B) == Min(c + B, N)
\* a save is due after a batch when the count passes a multiple of F (0: never), and at the end
Due(c, c2, N, F) == (F > 0 /\ c2 \div F > c \div F) \/ c2 = N
RECURSIVE Ends(_, _, _)
Ends(c, N, B) == IF c >= N THEN {} ELSE {After(c, N, B)} \cup Ends(After(c, N, B), N, B)
Saved(N, B, F) == {e \in Ends(0, N, B) : \E c \in Ends(0, N, B) \cup {0} : After(c, N, B) = e /\ c # e /\ Due(c, e, N, F)}
\* newest checkpoint on disk when c trials are complete (-1: none)
Newest(c, N, B, F) == LET S == {e \in Saved(N, B, F) : e <= c} IN IF S = {} THEN -1 ELSE CHOOSE e \in S : \A x \in S : x <= e
=============================================================================
