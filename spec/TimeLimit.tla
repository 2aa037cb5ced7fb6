----------------------------- MODULE TimeLimit -----------------------------
(***************************************************************************)
(* When the time limit ends a run. d: the durations of the batches a       *)
(* session would process without a limit, in order; the clock starts at 0  *)
(* when Stage 2 of the session begins and is read before each batch.       *)
(* A limit is <<number>> or <<>> (none).                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE Sum(_, _)
Sum(d, k) == IF k = 0 THEN 0 ELSE d[k] + Sum(d, k - 1)
\* the limit has elapsed after k batches (at the very instant either answer is right)
MayStop(d, lim, k) == lim # <<>> /\ Sum(d, k) >= lim[1]
MustStop(d, lim, k) == lim # <<>> /\ Sum(d, k) > lim[1]
\* numbers of batches a session may process
Allowed(d, lim) == {k \in 0..Len(d) : /\ k = Len(d) \/ MayStop(d, lim, k)
                                      /\ \A j \in 0..(k - 1) : ~MustStop(d, lim, j)}
=============================================================================
