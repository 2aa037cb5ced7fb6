---------------------------- MODULE LocalSearch ----------------------------
(***************************************************************************)
(* A local search as an automaton over the calls it makes of the problem,  *)
(* and a solver configuration as the outcome of a sequence of builder      *)
(* calls.                                                                  *)
(* Calls are <<kind, point, value>>: kind 0 objective, 1 gradient,         *)
(* 2 Hessian; value is a rank, NoVal for an undefined one, Err for a call  *)
(* that returned an error.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NoVal == 1000000
Err == -1
InfRank == 900000

DerivFree == {"NelderMead", "COBYLA"}
NeedsHessian == {"TrustRegion", "NewtonCG"}

\* ---- the state of a search: values seen, objective calls made, whether a call failed ----
Start(x0) == [x0 |-> x0, val |-> <<>>, n |-> 0, k |-> 0, failed |-> FALSE, d |-> {}]
Seen(st, p) == p \in DOMAIN st.val
\* COBYLA sees a failed evaluation as infinitely bad
ValueOf(alg, v) == IF v = Err /\ alg = "COBYLA" THEN InfRank ELSE v
Call(alg, st, e) ==
  [ st EXCEPT
      !.k = @ + 1,
      !.n = IF e[1] = 0 THEN @ + 1 ELSE @,
      !.d = IF e[1] = 0 THEN @ ELSE @ \cup {e[1]},
      !.failed = @ \/ (e[3] = Err /\ alg # "COBYLA"),
      !.val = IF e[1] # 0 \/ (e[3] = Err /\ alg # "COBYLA") THEN @
              ELSE [ q \in DOMAIN @ \cup {e[2]} |-> (IF q \in DOMAIN @ THEN @[q] ELSE {})
                      \cup (IF q = e[2] THEN {ValueOf(alg, e[3])} ELSE {}) ] ]
\* ---- what a search may do and return ----
AllowedCall(alg, st, e) ==
  /\ ~st.failed
  /\ e[1] = 0 \/ (alg \notin DerivFree /\ (e[1] = 1 \/ alg \in NeedsHessian))
\* with an iteration limit of zero some algorithms return without evaluating anything
Genuine(st, p, v) ==
  \/ Seen(st, p) /\ v \in st.val[p]
  \/ st.n = 0 /\ p = st.x0 /\ v = InfRank
\* L-BFGS ends at its best point so far when a line search fails; the others fail
MayReturn(alg, st) == st.failed => alg = "LBFGS" /\ st.k > 2
\* algorithms whose best point includes the starting point
KeepsStart == {"LBFGS", "NelderMead", "TrustRegion"}
NotWorse(alg, st, v) ==
  alg \in KeepsStart /\ Seen(st, st.x0) /\ NoVal \notin st.val[st.x0] => \E w \in st.val[st.x0] : v <= w

\* ---- builders: every field holds the last value set, else the one it started with ----
RECURSIVE Apply(_, _)
Apply(cfg, calls) ==
  IF calls = <<>> THEN cfg
  ELSE Apply([ cfg EXCEPT ![Head(calls)[1]] = Head(calls)[2] ], Tail(calls))
=============================================================================
