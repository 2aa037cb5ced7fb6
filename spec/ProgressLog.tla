----------------------------- MODULE ProgressLog -----------------------------
(* The progress log the built-in observer callbacks write: which line a      *)
(* callback writes, as a function of what the observer shows at that callback *)
(* and of what the log has reported before.                                  *)
(* A view: v1/v2 = Stage 1 / Stage 2 visible; sub = Stage 1 milestone         *)
(* (0 not started, 1 initialization, 2 diversification, 3 intensification,    *)
(* 4 scatter search, 5 local optimization, 6 complete); the other fields are  *)
(* the metrics, objectives and positions by identity of their printed form;   *)
(* chg = the exact values of the five quantities whose changes are reported.  *)
EXTENDS Integers, Sequences
Nothing == <<>>
Writes1(kind) == kind \in {"default", "stage1"}
Writes2(kind) == kind \in {"default", "stage2"}
\* a line: <<milestone or 10 for a Stage 2 iteration, fields...>>
Line1(v) == CASE v.sub = 1 -> <<1, v.ev>>
              [] v.sub = 2 -> <<2, v.ref>>
              [] v.sub = 3 -> <<3, v.tri, v.ref>>
              [] v.sub = 4 -> <<4, v.best, v.bp>>
              [] v.sub = 5 -> <<5, v.best, v.bp, v.ev>>
Line2(v) == <<10, v.it, v.best2, v.last, v.size, v.thr, v.calls, v.evals2>>
Changed(known, v) == known = Nothing \/ known # v.chg
Due1(kind, v) == Writes1(kind) /\ v.v1 /\ v.sub \in 1..5
Due2(kind, v) == Writes2(kind) /\ v.v2 /\ v.it > 0
\* lines due at a callback; `known` = the quantities at the previous Stage 2 callback
Due(kind, unique, known, v) ==
  (IF Due1(kind, v) THEN <<Line1(v)>> ELSE <<>>)
    \o (IF Due2(kind, v) /\ (unique => Changed(known, v)) THEN <<Line2(v)>> ELSE <<>>)
Known(kind, known, v) == IF Due2(kind, v) THEN v.chg ELSE known
=============================================================================
