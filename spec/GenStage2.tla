----------------------------- MODULE GenStage2 -----------------------------
(***************************************************************************)
(* Generator of Stage 2 behaviours for replay into the real library, and   *)
(* exhaustive model with the parameters (wait cycle, distance factor,      *)
(* tolerance, exclusion, target, batch size) chosen in the initial state.  *)
(*                                                                         *)
(* The landscape is realisable: trial points are distinct, an optimum has  *)
(* one objective value, a local search strictly improves or stays put, and *)
(* the optimum found by Stage 1 is no worse than any trial.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS K, MaxBatch, TrialPts, OptPts, OutPts, Vals, Waits, DFs, Tols, Targets, Excls, Emit
VARIABLES cfg, st, x0, xs, pend, log, done
vars == <<cfg, st, x0, xs, pend, log, done>>

Abs(x) == IF x < 0 THEN -x ELSE x
D(p, q) == Abs(p - q)
Opts == [p : OptPts, v : Vals]
MAdm(v, t) == {v <= t}
MFar(x, s) == {D(x.p, s.p) > cfg.df}
MBetter(s, f) == {s.v < f.v - cfg.tol}
MEquiv(s, f) == {Abs(s.v - f.v) <= cfg.tol}
MSep(s, m) == {D(s.p, m.p) >= cfg.df}
MInB(s) == s.p \notin OutPts
MAtTarget(s) == s.v <= cfg.target
MVal(s) == s.v
MRelax(t) == t + (1 + Abs(t))            \* threshold_factor = 1
MTrialVal(x) == x.v
MOutcome(x) == x.o
C == INSTANCE OQNLPCore WITH Adm <- MAdm, Far <- MFar, Better <- MBetter, Equiv <- MEquiv,
       Sep <- MSep, InB <- MInB, AtTarget <- MAtTarget, Val <- MVal, Relax <- MRelax,
       TrialVal <- MTrialVal, Outcome <- MOutcome, Excl <- cfg.excl, Wait <- cfg.wait

Snap(q) == [thr |-> q.thr, unch |-> q.unch, set |-> q.set, dist |-> q.dist]

Init ==
  /\ cfg \in [df : DFs, tol : Tols, wait : Waits, excl : Excls, target : Targets, batch : 1..MaxBatch]
  /\ x0 \in Opts
  /\ st \in C!Process([thr |-> x0.v, unch |-> 0, set |-> <<>>, dist |-> <<>>], x0)
  /\ done = C!TargetReached(st)
  /\ xs = <<>> /\ pend = <<>> /\ log = <<>>

Legal(x) ==
  /\ \A i \in 1..Len(xs) : xs[i].p # x.p
  /\ x.v >= x0.v
  /\ \/ x.o.p = x.p /\ x.o.v = x.v
     \/ /\ x.o.p \in OptPts /\ x.o.v < x.v
        /\ (x.o.p = x0.p => x.o.v = x0.v)
        /\ \A i \in 1..Len(xs) : xs[i].o.p = x.o.p => xs[i].o.v = x.o.v

Trials == UNION { { [p |-> p, v |-> v, o |-> o] : o \in Opts \cup {[p |-> p, v |-> v]} } : p \in TrialPts, v \in Vals }

Full(b) == Len(b) = cfg.batch \/ Len(xs) + 1 = K

Pick(x) ==
  /\ ~done /\ Len(xs) < K /\ Legal(x)
  /\ xs' = Append(xs, x)
  /\ LET b == Append(pend, x)
         started == SelectSeq(b, LAMBDA y : C!Must(C!Gate(st, y)))
     IN IF ~Full(b) THEN pend' = b /\ UNCHANGED <<st, log, done>>
        ELSE \E q \in C!Batch(st, b, started) :
               /\ st' = q /\ pend' = <<>>
               /\ done' = C!TargetReached(q)
               /\ log' = Append(log, [n |-> Len(xs) + 1, st |-> Snap(q)])
  /\ UNCHANGED <<cfg, x0>>

Ended == Len(xs) = K \/ done
Finish == /\ Ended /\ Emit
          /\ PrintT(ToJson([cfg |-> cfg, x0 |-> x0, xs |-> xs, log |-> log, end |-> Snap(st), done |-> done]))
          /\ UNCHANGED vars
Next == (\E x \in Trials : Pick(x)) \/ Finish
Spec == Init /\ [][Next]_vars

Reached == { st.dist[i] : i \in 1..Len(st.dist) }
BestNeverLost == C!BestKept(st.set, Reached)
SetIsEquivalent == C!SetEquivalent(st.set)
SetIsSeparated == C!SetSeparated(st.set)
SetIsGenuine == C!SetGenuine(st.set, Reached)
InBoundsOnly == C!OnlyInBounds(st.set)
UnchBelowWait == st.unch < cfg.wait
\* every rejected trial was counted: threshold relaxations + rejections account for all trials
Accounted == pend = <<>> /\ ~done => Len(st.dist) - 1 <= Len(xs)
=============================================================================
