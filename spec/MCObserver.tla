----------------------------- MODULE MCObserver -----------------------------
(* The protocol as a system: a run with an observer, all configurations.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
P == INSTANCE ObserverProtocol
CONSTANTS MaxIter, Freqs, Batches
VARIABLES cfg, ph, it, prev, cbs, evals, over
vars == <<cfg, ph, it, prev, cbs, evals, over>>
None == [v1 |-> FALSE, v1f |-> FALSE, v2 |-> FALSE, sub |-> 0, ref |-> 0, tri |-> 0, ev |-> 0,
         best |-> 0, el |-> FALSE, t1 |-> 0, nobj |-> 0, z2 |-> TRUE]
Cfgs == [mode : {"both", "s1", "s2"}, tr1 : BOOLEAN, tr2 : BOOLEAN, timing : BOOLEAN,
         freq : Freqs, start : 0..1, hit : 0..(MaxIter + 1)]
Init == /\ cfg \in Cfgs /\ ph = (IF cfg.start > 0 THEN 7 ELSE 0) /\ it = cfg.start
        /\ prev = None /\ cbs = <<>> /\ evals = 0 /\ over = FALSE

Show(sub, ev, tri, best) ==
  IF P!Obs1(cfg) THEN [None EXCEPT !.sub = sub, !.ref = 4, !.ev = ev, !.tri = tri, !.best = best] ELSE None

\* Stage 1 without observation still calls back three times, with nothing recorded
Stage1 == /\ ph < 6 /\ ~over
          /\ LET s == IF P!Obs1(cfg) THEN ph + 1 ELSE IF ph < 4 THEN 4 ELSE ph + 1
                 e == IF s = 2 THEN 4 ELSE IF s = 3 THEN 5 ELSE IF s = 5 THEN evals + 3 ELSE evals
                 cb == [Show(s, e, IF s >= 3 THEN 6 ELSE 0, IF s >= 4 THEN 1 ELSE 0)
                          EXCEPT !.v1 = cfg.tr1, !.v1f = cfg.tr1, !.el = cfg.timing, !.nobj = e]
             IN /\ ph' = s /\ evals' = e /\ prev' = cb /\ cbs' = Append(cbs, [s |-> 1, i |-> s])
                /\ over' = (s = 6 /\ cfg.hit = 0)
          /\ UNCHANGED <<cfg, it>>
Enter == /\ ph = 6 /\ ~over /\ ph' = 7 /\ UNCHANGED <<cfg, it, prev, cbs, evals, over>>
Iterate == /\ ph = 7 /\ it < MaxIter /\ ~over
           /\ it' = it + 1
           /\ over' = (cfg.hit = it + 1)
           /\ IF it % cfg.freq = 0
              THEN \/ cbs' = Append(cbs, [s |-> 2, i |-> it])
                   \/ over' /\ UNCHANGED cbs
              ELSE UNCHANGED cbs
           /\ prev' = [prev EXCEPT !.v1 = FALSE, !.v1f = cfg.tr1, !.v2 = cfg.tr2, !.el = cfg.timing, !.t1 = 1]
           /\ UNCHANGED <<cfg, ph, evals>>
Next == Stage1 \/ Enter \/ Iterate
Spec == Init /\ [][Next]_vars

Stage1First == \A i, j \in 1..Len(cbs) : cbs[i].s = 1 /\ cbs[j].s = 2 => i < j
InOrder == \A i, j \in 1..Len(cbs) : i < j /\ cbs[i].s = cbs[j].s => cbs[i].i < cbs[j].i
ExactlyDivisible ==
  LET got == { cbs[j].i : j \in { k \in 1..Len(cbs) : cbs[k].s = 2 } }
      due == { x \in cfg.start..(it - 1) : x % cfg.freq = 0 }
  IN got = due \/ (over /\ got = due \ {it - 1})
Views == Len(cbs) > 0 => IF ph < 7 THEN P!StageOneView(cfg, prev) ELSE TRUE
Views2 == ph = 7 /\ it > cfg.start => P!StageTwoView(cfg, prev)
ModeRespected == P!Untouched1(cfg, prev)
NeverBoth == ~(prev.v1 /\ prev.v2)
=============================================================================
