-------------------------- MODULE ObserverProtocol --------------------------
(***************************************************************************)
(* What an observer callback may show, and in which order callbacks come.  *)
(*                                                                         *)
(* cfg: mode ("both","s1","s2"), tr1/tr2 (tracking of stage 1 / 2 enabled),*)
(*      timing, freq, start (first Stage 2 iteration of this run), resumed *)
(* ph : substage of the last Stage 1 callback, 0..6, or 7 in Stage 2       *)
(* cb : one callback                                                       *)
(*   v1, v1f, v2   stage1() / stage1_final() / stage2() available          *)
(*   sub           substage shown (0 = not started)                        *)
(*   ref, tri, ev  Stage 1 reference-set size, trial points, evaluations   *)
(*   best          Stage 1 best value (id of a value, 0 = none)            *)
(*   el            elapsed_time() available                                *)
(*   t1            id of the stage 1 total time (0 = none)                 *)
(*   nobj          objective calls made so far (measured, not reported)    *)
(*   z2            Stage 2 metrics are all in their initial state          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Obs1(cfg) == cfg.tr1 /\ cfg.mode \in {"both", "s1"}
Obs2(cfg) == cfg.tr2 /\ cfg.mode \in {"both", "s2"}

\* Substages 1 initialization, 2 diversification, 3 intensification,
\* 4 scatter search, 5 local optimization, 6 stage 1 complete
NextSub(cfg, ph) == ph + 1

\* Clause by clause, so that a disagreement can be named
StageOneView(cfg, cb) == cb.v1 = cfg.tr1 /\ cb.v1f = cfg.tr1 /\ ~cb.v2
StageTwoView(cfg, cb) == ~cb.v1 /\ cb.v1f = cfg.tr1 /\ cb.v2 = cfg.tr2
Timing(cfg, cb) == cb.el = cfg.timing
Order(cfg, ph, cb) == Obs1(cfg) => cb.sub = NextSub(cfg, ph) /\ cb.sub <= 6
Untouched1(cfg, cb) == cfg.tr1 /\ ~Obs1(cfg) => cb.sub = 0 /\ cb.ref = 0 /\ cb.tri = 0 /\ cb.ev = 0 /\ cb.best = 0
Untouched2(cfg, cb) == cfg.tr2 /\ ~Obs2(cfg) => cb.z2

\* Truths of Stage 1, tr = [nref0, nref, ntri, best4, best5] measured independently
Metrics1(cfg, tr, cb) ==
  Obs1(cfg) =>
    /\ cb.sub >= 2 => cb.ev = cb.nobj
    /\ cb.sub = 2 => cb.ref = tr.nref0
    /\ cb.sub >= 3 => cb.ref = tr.nref /\ cb.tri = tr.ntri
    /\ cb.sub = 4 => cb.best \in tr.best4
    /\ cb.sub >= 5 => cb.best \in tr.best5
Monotone1(prev, cb) == cb.ev >= prev.ev /\ cb.tri >= prev.tri
\* After Stage 1 its metrics and its clock stand still
Frozen1(prev, cb) == cb.ref = prev.ref /\ cb.tri = prev.tri /\ cb.ev = prev.ev /\ cb.best = prev.best
ClockStopped(prev, cb) == cb.t1 = prev.t1
=============================================================================
