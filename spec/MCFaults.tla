------------------------------ MODULE MCFaults ------------------------------
(* A run with any call failing: reference set, trial points, then batches of
   local searches which share the workers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Refs, Trials, Batches, BatchSize, Len1, Algs
F == INSTANCE Faults
VARIABLES alg, resumed, par, ph, left, work, st, out, kept, dropped, evaluated
vars == <<alg, resumed, par, ph, left, work, st, out, kept, dropped, evaluated>>
Fresh == [ w \in 1..BatchSize |-> [n |-> 0, r |-> "running"] ]
Init == /\ alg \in Algs /\ resumed \in BOOLEAN /\ par \in BOOLEAN
        /\ ph = (IF resumed THEN "batch" ELSE "ref") /\ left = (IF resumed THEN Batches ELSE Refs)
        /\ work = Fresh /\ st = F!Start /\ out = "running" /\ kept = 0 /\ dropped = 0 /\ evaluated = 0
Fail(e) == alg # "COBYLA" \/ e[1] # 0
Eval(e) == st' = F!Call(alg, resumed, st, e)
Ref == /\ out = "running" /\ ph = "ref" /\ left > 0
       /\ \E ok \in BOOLEAN :
            /\ Eval(<<0, 1, ok>>)
            /\ IF ok THEN left' = left - 1 /\ out' = out /\ kept' = kept + 1
               ELSE left' = left /\ kept' = kept /\ out' = F!EvalError
       /\ evaluated' = evaluated + 1
       /\ UNCHANGED <<alg, resumed, par, ph, work, dropped>>
ToTrial == /\ out = "running" /\ ph = "ref" /\ left = 0 /\ ph' = "trial" /\ left' = Trials
           /\ UNCHANGED <<alg, resumed, par, work, st, out, kept, dropped, evaluated>>
Trial == /\ out = "running" /\ ph = "trial" /\ left > 0 /\ left' = left - 1
         /\ \E ok \in BOOLEAN : Eval(<<0, 2, ok>>) /\ (IF ok THEN kept' = kept + 1 /\ dropped' = dropped ELSE dropped' = dropped + 1 /\ kept' = kept)
         /\ evaluated' = evaluated + 1
         /\ UNCHANGED <<alg, resumed, par, ph, work, out>>
ToBatch == /\ out = "running" /\ ph = "trial" /\ left = 0 /\ ph' = "batch" /\ left' = Batches
           /\ UNCHANGED <<alg, resumed, par, work, st, out, kept, dropped, evaluated>>
\* one call of one search of the batch; without threads the searches run one after the other
Local(w) ==
  /\ out = "running" /\ ph = "batch" /\ left > 0 /\ work[w].r = "running"
  /\ (~par => \A v \in 1..(w - 1) : work[v].r = "done")
  /\ \E k \in IF alg \in {"COBYLA", "NelderMead"} THEN {0} ELSE {0, 1}, ok \in BOOLEAN :
       /\ Eval(<<k, 3, ok>>)
       /\ LET over == work[w].n + 1 = Len1
              first == work[w].n < 2
          IN work' = [ work EXCEPT ![w] = [n |-> @.n + 1,
                 r |-> IF ok \/ (alg = "COBYLA" /\ k = 0) THEN (IF over THEN "done" ELSE "running")
                       ELSE IF alg = "LBFGS" /\ ~first THEN "done" ELSE "failed"] ]
       /\ (IF ~par /\ work'[w].r = "failed" THEN out' = F!LocalError ELSE out' = out)
  /\ UNCHANGED <<alg, resumed, par, ph, left, kept, dropped, evaluated>>
\* a resumed run evaluates the trial point itself
Again(w) ==
  /\ resumed /\ out = "running" /\ ph = "batch" /\ left > 0 /\ work[w].n = 0 /\ work[w].r = "running"
  /\ (~par => \A v \in 1..(w - 1) : work[v].r = "done")
  /\ Eval(<<0, 3, FALSE>>) /\ out' = F!Stage2Error
  /\ UNCHANGED <<alg, resumed, par, ph, left, work, kept, dropped, evaluated>>
EndBatch == /\ out = "running" /\ ph = "batch" /\ left > 0 /\ \A w \in 1..BatchSize : work[w].r # "running"
            /\ IF \E w \in 1..BatchSize : work[w].r = "failed" THEN out' = F!LocalError /\ left' = left ELSE out' = out /\ left' = left - 1
            /\ work' = Fresh /\ UNCHANGED <<alg, resumed, par, ph, st, kept, dropped, evaluated>>
Finish == /\ out = "running" /\ ph = "batch" /\ left = 0 /\ out' = "ok"
          /\ UNCHANGED <<alg, resumed, par, ph, left, work, st, kept, dropped, evaluated>>
Next == Ref \/ ToTrial \/ Trial \/ ToBatch \/ (\E w \in 1..BatchSize : Local(w) \/ Again(w)) \/ EndBatch \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the machine's outcome is always one the fault rules allow, and nothing hangs
Consistent == out # "running" => F!AllowedOutcome(st, out)
TrialFailuresHarmless == (dropped > 0 /\ kept < Refs => FALSE) /\ (ph = "trial" => out = "running")
SequentialStops == ~par /\ st.must # {} => out # "running"
Accounted == ~resumed => evaluated = kept + dropped + (IF out = F!EvalError THEN 1 ELSE 0)
Ends == <>(out # "running")
=============================================================================
