------------------------------ MODULE MCStage2 ------------------------------
(* Exhaustive exploration of Stage 2 over small integers: every sequence of
   trials (objective, position, optimum reached), every batch size up to
   MaxBatch, with and without exclusion, target, non-finite values.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxTrials, MaxBatch, Vals, Pts, Tol, DF, WaitC, ExclC, Target, TopVal
\* Values are integers; TopVal stands for +infinity (a non-finite objective).

Sols == [p : Pts, v : Vals]
Trials == [p : {q \in Pts : q >= 0}, v : Vals, o : Sols]

Abs(x) == IF x < 0 THEN -x ELSE x
D(p, q) == Abs(p - q)
Fin(v) == v # TopVal
MAdm(v, t) == {v <= t}
MFar(x, s) == {D(x.p, s.p) > DF}
MTol(a, b) == IF Fin(a) /\ Fin(b) THEN Tol ELSE 0
MBetter(s, f) == {s.v < f.v - MTol(s.v, f.v)}
MEquiv(s, f) == {IF Fin(s.v) /\ Fin(f.v) THEN Abs(s.v - f.v) <= Tol ELSE FALSE}
MSep(s, m) == {D(s.p, m.p) >= DF}
MInB(s) == s.p >= 0          \* negative positions are out of bounds
MAtTarget(s) == s.v <= Target
MVal(s) == s.v
MRelax(t) == IF t >= TopVal THEN TopVal ELSE LET r == t + 1 IN IF r > TopVal THEN TopVal ELSE r
MTrialVal(x) == x.v
MOutcome(x) == x.o

C == INSTANCE OQNLPCore WITH Adm <- MAdm, Far <- MFar, Better <- MBetter, Equiv <- MEquiv,
       Sep <- MSep, InB <- MInB, AtTarget <- MAtTarget, Val <- MVal, Relax <- MRelax,
       TrialVal <- MTrialVal, Outcome <- MOutcome, Excl <- ExclC, Wait <- WaitC

VARIABLES st, n, reached, since, done, best, batchEq
vars == <<st, n, reached, since, done, best, batchEq>>
\* since: optima reached since the set was founded (the founder included)

BestVal(q) == IF q.set = <<>> THEN TopVal + 1
              ELSE CHOOSE v \in {m.v : m \in C!Range(q.set)} : \A m \in C!Range(q.set) : v <= m.v

\* A local search never ends above its start
Legal(x) == x.o.v <= x.v

Init == \E o \in Sols :
  /\ st \in C!Process([thr |-> o.v, unch |-> 0, set |-> <<>>, dist |-> <<>>], o)
  /\ n = 0 /\ reached = {o} /\ since = {o} /\ best = BestVal(st)
  /\ done = C!TargetReached(st) /\ batchEq = TRUE

\* Sequential reference: same trial processed by TrialStep
StepBatch(xs) ==
  LET started == SelectSeq(xs, LAMBDA x : C!Must(C!Gate(st, x)))
  IN  \E q \in C!Batch(st, xs, started) :
        /\ st' = q
        /\ n' = n + Len(xs)
        /\ reached' = reached \cup {started[i].o : i \in 1..Len(started)}
        /\ since' = LET applied == {q.dist[i] : i \in (Len(st.dist)+1)..Len(q.dist)}
                    IN IF q.set # <<>> /\ (st.set = <<>> \/ q.set[1] # st.set[1])
                       THEN LET k == CHOOSE i \in (Len(st.dist)+1)..Len(q.dist) :
                                        /\ q.dist[i] = q.set[1]
                                        /\ \A j \in (Len(st.dist)+1)..(i-1) : q.dist[j] # q.set[1]
                            IN {q.dist[i] : i \in k..Len(q.dist)}
                       ELSE since \cup applied
        /\ best' = BestVal(q)
        /\ done' = C!TargetReached(q)
        /\ batchEq' = (Len(xs) = 1 =>
              C!Batch(st, xs, started) = C!TrialStep(st, xs[1], started # <<>>))

LegalTrials == {x \in Trials : Legal(x)}
Next == /\ ~done /\ n < MaxTrials
        /\ \E k \in 1..MaxBatch : /\ n + k <= MaxTrials
                                  /\ \E xs \in [1..k -> LegalTrials] : StepBatch(xs)
Spec == Init /\ [][Next]_vars

\* Optima of a batch that are ignored because the target was reached are exempt (C11)
Considered == IF done THEN {st.dist[i] : i \in 1..Len(st.dist)} ELSE reached
BestNeverLost == C!BestKept(st.set, Considered)
SetIsEquivalent == C!SetEquivalent(st.set)
SetIsSeparated == C!SetSeparated(st.set)
SetIsGenuine == C!SetGenuine(st.set, reached)
SetIsComplete == C!SetComplete(st.set, since)
InBoundsOnly == C!OnlyInBounds(st.set)
BatchOneIsSequential == batchEq
\* C01: the best objective never gets worse by more than the tolerance, and a founder never gets worse
BestMonotone == [][best' <= best]_vars
FounderMonotone == [][st.set # <<>> /\ st'.set # <<>> => st'.set[1].v <= st.set[1].v]_vars
UnchBelowWait == st.unch < WaitC \/ WaitC = 0
HistoryGrows == [][Len(st'.dist) >= Len(st.dist)
                   /\ \A i \in 1..Len(st.dist) : st'.dist[i] = st.dist[i]]_vars
\* C03/C09: no two optima started from... every optimum found is remembered
Remembered == C!Range(st.dist) \subseteq reached
=============================================================================
