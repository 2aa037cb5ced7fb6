----------------------------- MODULE TraceEquiv -----------------------------
(***************************************************************************)
(* Self-composition: two recorded runs of the same problem, parameters,    *)
(* seed, user points and batch size walk in lock step; at every step they  *)
(* must be in the same state. Used for C10 (different schedules, threads,  *)
(* builds) and C19 (different observers, output, checkpointing, builds).   *)
(* A run is  res    returned solution set, or an error code                *)
(*           steps  the sequence of observed steps (states after each      *)
(*                  batch, objective calls of a single-threaded run)       *)
(*           refs   reference set in the order Stage 2 processes it        *)
(*           pts    the set of points at which the objective was evaluated *)
(* All values are ids of bit patterns.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT File
Traces == JsonDeserialize(File)
VARIABLES t, l, bad
vars == <<t, l, bad>>
T == Traces[t]
A == T.a
B == T.b
Flag(why, cond) == IF cond THEN {} ELSE {<<T.prop, why>>}
Len2 == IF Len(A.steps) > Len(B.steps) THEN Len(A.steps) ELSE Len(B.steps)
Init == t \in 1..Len(Traces) /\ l = 1 /\ bad = {}
Both == T.cmpsteps
Step == /\ Both /\ l <= Len2
        /\ bad' = bad \cup Flag("the runs take different steps",
                    l <= Len(A.steps) /\ l <= Len(B.steps) /\ A.steps[l] = B.steps[l])
End == /\ (IF Both THEN l = Len2 + 1 ELSE l = 1)
       /\ bad' = bad \cup Flag("different results", A.res = B.res)
                     \cup Flag("different trial order", T.cmprefs => A.refs = B.refs)
                     \cup Flag("objective evaluated at different points", T.cmppts => A.pts = B.pts)
       /\ PrintT(ToJson([done |-> T.id, bad |-> bad']))
Stop == IF Both THEN Len2 + 1 ELSE 1
Next == (Step \/ End) /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
