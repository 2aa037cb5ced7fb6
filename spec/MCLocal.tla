------------------------------ MODULE MCLocal ------------------------------
(* Every search over a few points with every objective function and failure,
   and every sequence of builder calls over a few fields. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Points, Vals, MaxCalls, Algs, Fields, Values, MaxSets
L == INSTANCE LocalSearch
VARIABLES alg, st, best, res, log, cfg, cfg0, sets
vars == <<alg, st, best, res, log, cfg, cfg0, sets>>
None == [p |-> 0, v |-> L!NoVal]
Init == /\ alg \in Algs /\ st = L!Start(1) /\ best = None /\ res = "running" /\ log = <<>>
        /\ cfg0 \in [Fields -> {0}] /\ cfg = cfg0 /\ sets = <<>>
\* objective functions are functions: a point has one value
Calls == { <<k, p, v>> \in {0, 1, 2} \X Points \X (Vals \cup {L!Err}) :
             (k = 0 /\ L!Seen(st, p)) => st.val[p] = {L!ValueOf(alg, v)} }
Step(e) ==
  /\ res = "running" /\ Len(log) < MaxCalls /\ L!AllowedCall(alg, st, e)
  /\ (log = <<>> => e[2] = 1 /\ (alg \in L!DerivFree => e[1] = 0))
  /\ st' = L!Call(alg, st, e) /\ log' = Append(log, e)
  /\ LET v == L!ValueOf(alg, e[3])
     IN /\ res' \in IF e[3] = L!Err /\ alg # "COBYLA"
                     THEN {"error"} \cup (IF L!MayReturn(alg, st') /\ best.p # 0 THEN {"done"} ELSE {}) ELSE {"running"}
        /\ best' = IF e[1] = 0 /\ e[3] # L!Err /\ (best.p = 0 \/ v < best.v) THEN [p |-> e[2], v |-> v]
                   ELSE IF e[1] = 0 /\ alg = "COBYLA" /\ best.p = 0 THEN [p |-> e[2], v |-> v] ELSE best
  /\ UNCHANGED <<alg, cfg, cfg0, sets>>
Stop == /\ res = "running" /\ best.p # 0 /\ res' = "done" /\ UNCHANGED <<alg, st, best, log, cfg, cfg0, sets>>
Set(f, v) == /\ log = <<>> /\ Len(sets) < MaxSets /\ sets' = Append(sets, <<f, v>>)
             /\ cfg' = [cfg EXCEPT ![f] = v] /\ UNCHANGED <<alg, st, best, res, log, cfg0>>
Next == (\E e \in Calls : Step(e)) \/ Stop \/ (\E f \in Fields, v \in Values : Set(f, v))
Spec == Init /\ [][Next]_vars
GenuineResult == res = "done" => L!Genuine(st, best.p, best.v)
NeverWorse == res = "done" => L!NotWorse(alg, st, best.v)
CountExact == st.n = Cardinality({ i \in 1..Len(log) : log[i][1] = 0 })
FailureEnds == \A i \in 1..Len(log) : log[i][3] = L!Err /\ alg # "COBYLA" => i = Len(log) /\ (res = "error" \/ (res = "done" /\ alg = "LBFGS"))
NoDerivatives == alg \in L!DerivFree => st.d = {}
NoHessians == alg \notin L!NeedsHessian => 2 \notin st.d
LastWriteWins == /\ cfg = L!Apply(cfg0, sets)
                 /\ \A f \in Fields : LET w == { i \in 1..Len(sets) : sets[i][1] = f }
                      IN IF w = {} THEN cfg[f] = cfg0[f]
                         ELSE cfg[f] = sets[CHOOSE i \in w : \A j \in w : j <= i][2]
=============================================================================
