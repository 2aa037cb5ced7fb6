------------------------------- MODULE Faults -------------------------------
(***************************************************************************)
(* What a failing call of a user function does to a run.                   *)
(* A call is <<kind, context, ok>>: kind 0 objective, 1 gradient,          *)
(* 2 Hessian; context 1 the initial reference set, 2 candidate trial       *)
(* points, 3 Stage 1's and Stage 2's local searches and (in a resumed run) *)
(* the evaluation of trial points.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

EvalError == "ScatterSearchRunError"
Stage2Error == "ObjectiveFunctionEvaluationFailed"
LocalError == "LocalSolverError"

\* st: must - errors one of which the run has to return; may - errors it is allowed to return;
\*     calls - calls of local searches so far
Start == [must |-> {}, may |-> {}, calls |-> 0]
Effect(alg, resumed, st, e) ==
  IF e[2] = 1 THEN [must |-> {EvalError}, may |-> {}]
  ELSE IF e[2] = 2 THEN [must |-> {}, may |-> {}]
  ELSE LET again == IF resumed /\ e[1] = 0 THEN {Stage2Error} ELSE {}
       IN CASE alg = "COBYLA" /\ e[1] = 0 -> [must |-> {}, may |-> again]
            \* a failing line search ends L-BFGS at its best point so far; its first two calls are fatal
            [] alg = "LBFGS" /\ st.calls >= 2 -> [must |-> {}, may |-> again \cup {LocalError}]
            [] OTHER -> [must |-> again \cup {LocalError}, may |-> {}]
Call(alg, resumed, st, e) ==
  LET f == IF e[3] THEN [must |-> {}, may |-> {}] ELSE Effect(alg, resumed, st, e)
  IN [ must |-> IF st.must # {} THEN st.must ELSE f.must,
       may  |-> st.may \cup f.may \cup (IF st.must # {} THEN f.must ELSE {}),
       calls |-> IF e[2] = 3 THEN st.calls + 1 ELSE st.calls ]
\* without worker threads nothing is called after a fatal failure
AllowedCall(par, st) == par \/ st.must = {}
AllowedOutcome(st, out) == IF st.must # {} THEN out \in st.must \cup st.may ELSE out = "ok" \/ out \in st.may
=============================================================================
