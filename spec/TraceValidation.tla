--------------------------- MODULE TraceValidation ---------------------------
(* Judges what the real library did with an input. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT File
Traces == JsonDeserialize(File)
V == INSTANCE Validation
VARIABLES t, bad
T == Traces[t]
Flag(p, why, cond) == IF cond THEN {} ELSE {<<p, why>>}
\* a run on extreme but valid bounds may still fail later, in a local search
Accepts == T.out.at = "ok" \/ (T.soft /\ T.out.at = "run" /\ T.out.e \in {"LocalSolverError", "NoFeasibleSolution"})
Init == /\ t \in 1..Len(Traces) /\ bad = {}
Judge ==
  /\ bad' = Flag("C22", "panic", T.out.at # "panic")
     \cup IF T.out.at = "panic" THEN {}
          ELSE IF V!Valid(T.i) THEN Flag("C22", "valid input rejected", Accepts)
          ELSE Flag("C22", "invalid input accepted", T.out.at \notin {"ok"} /\ T.out.e \notin {"LocalSolverError", "NoFeasibleSolution"})
               \cup Flag("C22", "rejected with the wrong error or too late",
                         T.out.at = "ok" \/ <<T.out.at, [e |-> T.out.e, a |-> T.out.a, b |-> T.out.b]>> \in V!Outcomes(T.i))
  /\ PrintT(ToJson([done |-> T.id, bad |-> bad']))
  /\ t' = t
Next == bad = {} /\ Judge
Spec == Init /\ [][Next]_<<t, bad>>
=============================================================================
