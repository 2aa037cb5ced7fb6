---------------------------- MODULE TraceModified ---------------------------
(* Judges one resume with modified parameters (the decisions themselves are  *)
(* validated by TraceStage2 from the checkpointed state under the new        *)
(* parameters). Points are numbered by identity.                             *)
(* trace: id, none (no checkpoint there), reported, refP/refN (reference set *)
(* before and after), popP, popN, good (numbers of points in bounds and      *)
(* feasible), params (the recorded parameters are the new ones), itP, itE    *)
(* (iteration before, at the end), itersN, target, fresh (result equals a    *)
(* fresh run's), res                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT File
Traces == JsonDeserialize(File)
VARIABLES t, l, bad
T == Traces[t]
Flag(why, cond) == IF cond THEN {} ELSE {<<"C13", why>>}
Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Good == {T.good[i] : i \in 1..Len(T.good)}
Min(x, y) == IF x < y THEN x ELSE y
Max(x, y) == IF x < y THEN y ELSE x
Judge == /\ l = 0 /\ l' = 1 /\ t' = t
   /\ bad' =
      IF T.none
      THEN Flag("a missing checkpoint is not reported", T.reported = "false")
           \cup Flag("the run without a checkpoint is not a fresh run", T.fresh)
      ELSE Flag("resuming is not reported", T.reported \in {"true", "ok"})
           \cup Flag("existing reference points were altered",
                     Len(T.refN) >= Len(T.refP) /\ SubSeq(T.refN, 1, Len(T.refP)) = T.refP)
           \cup Flag("size of the reference set",
                     Len(T.refN) = IF T.popN > T.popP THEN Max(T.popN, Len(T.refP)) ELSE Len(T.refP))
           \cup Flag("a new reference point is out of bounds or infeasible",
                     \A i \in (Len(T.refP) + 1)..Len(T.refN) : T.refN[i] \in Good)
           \cup Flag("the new parameters are not in force", T.params)
           \cup Flag("the run does not continue to the end of the new budget",
                     T.target \/ T.itE = Max(T.itP, Min(T.itersN, Len(T.refN))))
Fin == /\ l = 1 /\ l' = 2 /\ UNCHANGED <<t, bad>> /\ PrintT(ToJson([done |-> T.id, bad |-> bad]))
Next == Judge \/ Fin
Spec == Init /\ [][Next]_<<t, l, bad>>
=============================================================================
