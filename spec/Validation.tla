----------------------------- MODULE Validation -----------------------------
(***************************************************************************)
(* What the library accepts and rejects, phase by phase: constructing the  *)
(* optimiser, adding user points, opening the checkpoint directory and     *)
(* starting a run.                                                         *)
(* An input is abstract: tf and df are "neg", "zero", "pos" or "nan"; the  *)
(* bounds a sequence of "ok", "rev", "eq", "nan", "inf" or "wide"; a user  *)
(* point is "in", "out" or "dim" (wrong number of coordinates).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Errors == {"InvalidPopulationSize", "InvalidIterations", "InvalidThresholdFactor", "DistanceFilterError",
           "InvalidCustomPointsDimension", "CustomPointOutOfBounds", "CheckpointError", "ScatterSearchError"}
Phases == <<"new", "points", "with_checkpointing", "run">>

NewErrors(i) ==
  (IF i.pop < 4 THEN {[e |-> "InvalidPopulationSize", a |-> i.pop, b |-> 0]} ELSE {})
  \cup (IF i.iters > i.pop THEN {[e |-> "InvalidIterations", a |-> i.iters, b |-> i.pop]} ELSE {})
  \cup (IF i.tf # "pos" THEN {[e |-> "InvalidThresholdFactor", a |-> 0, b |-> 0]} ELSE {})
  \cup (IF i.df \in {"neg", "nan"} THEN {[e |-> "DistanceFilterError", a |-> 0, b |-> 0]} ELSE {})
PointErrors(i) ==
  { [e |-> "InvalidCustomPointsDimension", a |-> k - 1, b |-> Len(i.bounds)] : k \in { k \in 1..Len(i.pts) : i.pts[k] = "dim" } }
  \cup { [e |-> "CustomPointOutOfBounds", a |-> k - 1, b |-> 0] : k \in { k \in 1..Len(i.pts) : i.pts[k] = "out" } }
CkErrors(i) == IF i.ck = "file" THEN {[e |-> "CheckpointError", a |-> 0, b |-> 0]} ELSE {}
RunErrors(i) == IF \E k \in 1..Len(i.bounds) : i.bounds[k] # "ok" THEN {[e |-> "ScatterSearchError", a |-> 0, b |-> 0]} ELSE {}

ErrorsOf(i, ph) ==
  CASE ph = "new" -> NewErrors(i) [] ph = "points" -> PointErrors(i)
    [] ph = "with_checkpointing" -> CkErrors(i) [] ph = "run" -> RunErrors(i)
Valid(i) == \A k \in 1..4 : ErrorsOf(i, Phases[k]) = {}
\* the first phase that finds something wrong
FirstBad(i) == CHOOSE k \in 1..4 : ErrorsOf(i, Phases[k]) # {} /\ \A j \in 1..(k - 1) : ErrorsOf(i, Phases[j]) = {}
\* the outcomes allowed: <<phase, error>>
Outcomes(i) == { <<Phases[FirstBad(i)], e>> : e \in ErrorsOf(i, Phases[FirstBad(i)]) }
=============================================================================
