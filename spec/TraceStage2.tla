---------------------------- MODULE TraceStage2 ----------------------------
(***************************************************************************)
(* Validates recorded runs of the real library against OQNLPCore.          *)
(*                                                                         *)
(* traces.json is an array of runs. Every run carries the tables of the    *)
(* relations between its numbers and an event list:                        *)
(*   init   outcome of Stage 1 (candidate optima, whether Stage 2 followed)*)
(*   resume the state a checkpoint restored                                *)
(*   batch  trials processed, local searches started, state left behind    *)
(*          (read back from the checkpoint saved after the batch) and the  *)
(*          observer callbacks received meanwhile                          *)
(*   end    what run() returned and the observer's final metrics           *)
(*                                                                         *)
(* Each step compares the observed successor with those the specification  *)
(* allows, per listed property, collects disagreements in `bad`, and goes  *)
(* on from the observed state, so that one disagreement does not hide the  *)
(* rest of the trace. A run is rejected for property P if every path       *)
(* through it collects P.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT File

Traces == JsonDeserialize(File)

VARIABLES t, l, st, it, reached, since, ob, bad
vars == <<t, l, st, it, reached, since, ob, bad>>

T == Traces[t]
TV(x) == IF x = 2 THEN BOOLEAN ELSE {x = 1}

\* tables ------------------------------------------------------------------
NaN(v) == T.nan[v] = 1
TAdm(v, th) == {~NaN(v) /\ ~NaN(th) /\ T.rank[v] <= T.rank[th]}
TFar(x, s) == TV(T.far[x][s])
TBetter(s, f) == TV(T.better[s][f])
TEquiv(s, f) == TV(T.equiv[s][f])
TSep(s, m) == TV(T.sep[s][m])
TInB(s) == T.inb[s] = 1
TAtTarget(s) == T.tgt[s] = 1
TVal(s) == T.sv[s]
TRelax(th) == T.relax[th]
TTrialVal(x) == T.tv[x]
TOutcome(x) == T.out[x]

C == INSTANCE OQNLPCore WITH Adm <- TAdm, Far <- TFar, Better <- TBetter, Equiv <- TEquiv,
       Sep <- TSep, InB <- TInB, AtTarget <- TAtTarget, Val <- TVal, Relax <- TRelax,
       TrialVal <- TTrialVal, Outcome <- TOutcome, Excl <- T.excl, Wait <- T.wait

\* equality of thresholds up to rounding of the relaxation formula
SameThr(a, b) == a = b \/ <<a, b>> \in {<<T.close[i][1], T.close[i][2]>> : i \in 1..Len(T.close)}

Ev == T.ev[l]
NIters == IF T.iters < T.nref THEN T.iters ELSE T.nref

St(o) == [thr |-> o.thr, unch |-> o.unch, set |-> o.set, dist |-> o.dist]
Flag(p, why, cond) == IF cond THEN {} ELSE {<<p, why>>}

Init == /\ t \in 1..Len(Traces)
        /\ l = 1
        /\ st = [thr |-> 0, unch |-> 0, set |-> <<>>, dist |-> <<>>]
        /\ it = 0 /\ reached = {} /\ since = {} /\ bad = {}
        /\ ob = [calls |-> 0, imp |-> 0, ev |-> 0]

----------------------------------------------------------------------------
(* Stage 1 ends with one local search from a best-valued reference point *)
StartState(o) == [thr |-> TVal(o), unch |-> 0, set |-> <<>>, dist |-> <<>>]
EvInit ==
  /\ Ev.k = "init"
  /\ \E i \in 1..Len(Ev.cands) :
       LET o == Ev.cands[i] IN
       \E q \in C!Process(StartState(o), o) :
         /\ st' = q
         /\ reached' = {o} /\ since' = {o}
         /\ it' = 0
         /\ bad' = bad \cup Flag("C05", "stage 2 entered although stage 1 reached the target, or not entered although it did not",
                                 Ev.stage2 = ~C!TargetReached(q))
         /\ UNCHANGED ob

(* The state a resumed run starts from: that of the checkpoint *)
EvResume ==
  /\ Ev.k = "resume"
  /\ st' = St(Ev.st)
  /\ it' = Ev.st.it
  /\ reached' = C!Range(Ev.st.dist)
  /\ since' = {}           \* completeness is judged from here on only
  /\ UNCHANGED <<ob, bad>>

----------------------------------------------------------------------------
(* Subsequences of the batch that may have been started, when not logged:
   those whose outcomes are exactly the new entries of the filter history *)
NewDist(o) == SubSeq(o.dist, Len(st.dist) + 1, Len(o.dist))
Ints(a, n) == [i \in 1..n |-> a + i]                 \* trials a+1 .. a+n
SubSeqs(xs) == { SelectSeq(xs, LAMBDA x : x \in S) : S \in SUBSET C!Range(xs) }
Outs(xs) == [i \in 1..Len(xs) |-> TOutcome(xs[i])]

StartedChoices(xs, e) ==
  IF e.logged THEN {e.started}
  ELSE LET nd == NewDist(e.post)
           cut == C!TargetReached(St(e.post))
           \* optima after the one that reached the target may have been ignored
           explains(s) == /\ Len(s) >= Len(nd) /\ (cut \/ Len(s) = Len(nd))
                          /\ \A i \in 1..Len(s) : TOutcome(s[i]) # 0      \* a failing search ends the run
                          /\ SubSeq(Outs(s), 1, Len(nd)) = nd
           gate == [x \in C!Range(xs) |-> C!Gate(st, x)]
           must == { x \in C!Range(xs) : gate[x] = {TRUE} }
           open == { x \in C!Range(xs) : gate[x] = BOOLEAN }
           pick(S) == SelectSeq(xs, LAMBDA x : x \in must \/ x \in S)
           lawful == { s \in { pick(S) : S \in SUBSET open } : explains(s) }
           any == IF Len(xs) > 10 THEN {} ELSE { s \in SubSeqs(xs) : explains(s) }
       IN IF lawful # {} THEN lawful ELSE IF any # {} THEN any
          ELSE { SelectSeq(pick({}), LAMBDA x : TOutcome(x) # 0) }

\* every micro step of the batch: rejected trials first, then the started ones
RECURSIVE Paths(_, _, _)
Paths(q, xs, started) ==   \* set of sequences of states
  IF xs = <<>> THEN { <<>> }
  ELSE UNION { { <<r>> \o p : p \in Paths(r, Tail(xs), started) }
               : r \in C!TrialStep(q, Head(xs), Head(xs) \in C!Range(started)) }

Order(xs, started) == SelectSeq(xs, LAMBDA x : x \notin C!Range(started)) \o started

RECURSIVE Sum(_, _)
Sum(f, xs) == IF xs = <<>> THEN 0 ELSE f[Head(xs)] + Sum(f, Tail(xs))

BestOf(q) == { m \in C!Range(q.set) : \A k \in C!Range(q.set) :
                 NaN(TVal(k)) \/ (~NaN(TVal(m)) /\ T.rank[TVal(m)] <= T.rank[TVal(k)]) }

Changed(a, b) == a.set # b.set

\* Does callback record c agree with state q after micro step i of the batch?
CbState(c, q, i, path) ==
  /\ SameThr(c.thr, q.thr)
  /\ c.unch = q.unch
  /\ c.size = Len(q.set)
  /\ IF q.set = <<>> THEN c.best = 0 ELSE \E m \in BestOf(q) : c.best = TVal(m) /\ c.bp = m

\* cumulative counters after micro step i: what has been applied so far, and what
\* the whole batch has spent (optima of a batch are computed before they are applied)
Base(xs) == ob.ev + (IF T.resumed THEN Len(xs) ELSE 0)
CbCount(c, xs, started, path, i) ==
  LET ord == Order(xs, started)
      done == SelectSeq(SubSeq(ord, 1, i), LAMBDA x : x \in C!Range(started))
      prev(k) == IF k = 1 THEN st ELSE path[k - 1]
      imps(n) == Cardinality({k \in 1..n : Changed(prev(k), path[k])})
  IN /\ c.calls >= ob.calls + Len(done) /\ c.calls <= ob.calls + Len(started)
     /\ c.imp >= ob.imp + imps(i) /\ c.imp <= ob.imp + imps(Len(path))
     /\ c.ev >= Base(xs) + Sum(T.evals, done) /\ c.ev <= Base(xs) + Sum(T.evals, started)

\* Callbacks: exactly the processed iterations divisible by the frequency, in
\* processing order; from the one that reaches the target on they may be missing
CbIters(xs, started, path) ==
  LET ord == Order(xs, started)
      pick(n) == SelectSeq(SubSeq(ord, 1, n), LAMBDA x : T.freq > 0 /\ (x - 1) % T.freq = 0)
      hit == { i \in 1..Len(path) : C!TargetReached(path[i]) }
      first == IF hit = {} THEN Len(ord) + 1 ELSE CHOOSE i \in hit : \A j \in hit : i <= j
  IN IF hit = {} THEN { pick(Len(ord)) } ELSE { pick(n) : n \in (first - 1)..Len(ord) }

CbSeq(e) == [i \in 1..Len(e.cbs) |-> e.cbs[i].it + 1]

SinceAfter(o) ==
  IF o.set = <<>> THEN {}
  ELSE IF st.set = <<>> \/ o.set[1] # st.set[1] \/ Len(o.set) < Len(st.set)
  THEN LET K == { i \in (Len(st.dist)+1)..Len(o.dist) : o.dist[i] = o.set[1] }
       IN IF K = {} THEN {} ELSE
          LET k == CHOOSE i \in K : \A j \in K : i <= j
          IN { o.dist[i] : i \in k..Len(o.dist) }
  ELSE since \cup C!Range(NewDist(o))

EvBatch ==
  /\ Ev.k = "batch"
  /\ LET o == St(Ev.post)
         n == Ev.post.it - it
         xs == Ints(it, n)
         sane == n >= 1 /\ Ev.post.it <= NIters
     IN
     IF ~sane
     THEN /\ bad' = bad \cup Flag("C05", "iteration count out of range", FALSE)
          /\ st' = o /\ it' = Ev.post.it /\ reached' = reached \cup C!Range(o.dist)
          /\ since' = SinceAfter(o) /\ UNCHANGED ob
     ELSE
     \E started \in StartedChoices(xs, Ev) :
     LET Poss == C!Batch(st, xs, started)
         BS == IF T.batch < NIters - it THEN T.batch ELSE NIters - it
         AllOut == C!Range(Outs(started))
         full == Paths(st, Order(xs, started), started)
         fits == { p \in full : p[Len(p)].set = o.set }
         hit == C!TargetReached(o)
     IN \E path \in (IF fits # {} THEN fits ELSE full) :
        /\ st' = o
        /\ it' = Ev.post.it
        /\ reached' = reached \cup C!Range(o.dist) \cup (IF hit THEN {} ELSE AllOut)
        /\ since' = SinceAfter(o)
        /\ ob' = [calls |-> ob.calls + Len(started),
                  imp |-> ob.imp + Cardinality({k \in 1..Len(path) :
                             Changed(IF k = 1 THEN st ELSE path[k-1], path[k])}),
                  ev |-> Base(xs) + Sum(T.evals, started)]
        /\ bad' = bad
           \cup Flag("C05", "a batch was processed after the target had been reached", ~C!TargetReached(st))
           \cup Flag("C05", "batch does not cover the next trials", n = BS)
           \cup Flag("C03", "a local search started or not against the filters", C!StartedOK(st, xs, started))
           \cup Flag("C03", "filter history is not the optima found, in order",
                     \E q \in Poss : q.dist = o.dist)
           \cup Flag("C04", "threshold", \E q \in Poss : SameThr(q.thr, o.thr))
           \cup Flag("C04", "rejection count", \E q \in Poss : q.unch = o.unch)
           \cup Flag("C02", "solution set", \E q \in Poss : q.set = o.set)
           \cup Flag("C02", "members not equivalent to the founder", C!SetEquivalent(o.set))
           \cup Flag("C02", "members too close to each other", ~C!SetSeparated(st.set) \/ C!SetSeparated(o.set))
           \cup Flag("C02", "member that no local search returned", C!SetGenuine(o.set, reached'))
           \cup Flag("C02", "equivalent distinct optimum missing", C!SetComplete(o.set, since'))
           \cup Flag("C01", "best optimum lost", C!BestKept(o.set, reached'))
           \cup Flag("C01", "best objective got worse",
                     \/ st.set = <<>>
                     \/ (o.set # <<>> /\ \E m \in BestOf(o) : \A k \in BestOf(st) :
                           NaN(TVal(k)) \/ T.rank[TVal(m)] <= T.rank[TVal(k)]))
           \cup Flag("C07", "out-of-bounds member", C!OnlyInBounds(o.set))
           \cup Flag("C07", "out-of-bounds optimum changed the set or was forgotten",
                     (\E x \in AllOut : ~TInB(x)) =>
                        /\ \E q \in Poss : q.set = o.set
                        /\ \E q \in Poss : q.dist = o.dist
                        /\ \E q \in Poss : SameThr(q.thr, o.thr))
           \cup Flag("C11", "outcome of a batch",
                     T.batch > 1 =>
                        /\ C!StartedOK(st, xs, started)
                        /\ \E q \in Poss : q.set = o.set /\ q.dist = o.dist /\ q.unch = o.unch
                                           /\ SameThr(q.thr, o.thr))
           \cup (IF ~Ev.observed \/ ~T.obs2 THEN {} ELSE
                 LET good == CbIters(xs, started, path) IN
                 Flag("C18", "callback iterations", CbSeq(Ev) \in good)
                 \cup Flag("C17", "iteration reported at a callback",
                           CbSeq(Ev) \in good \/ Len(CbSeq(Ev)) \notin {Len(g) : g \in good})
                 \cup Flag("C17", "metrics at a callback",
                      \A i \in 1..Len(Ev.cbs) :
                        \/ \E j \in 1..Len(path) : Order(xs, started)[j] = Ev.cbs[i].it + 1
                              /\ CbState(Ev.cbs[i], path[j], j, path)
                              /\ CbCount(Ev.cbs[i], xs, started, path, j)
                        \/ Ev.cbs[i].it + 1 \notin C!Range(xs)) )

----------------------------------------------------------------------------
EvEnd ==
  /\ Ev.k = "end"
  /\ UNCHANGED <<st, it, reached, since, ob>>
  /\ LET s2 == Ev.stage2 IN
     bad' = IF Ev.failed
       THEN bad
       \cup Flag("C05", "a batch was processed after the target had been reached", ~C!TargetReached(st))
       \cup Flag("C05", "a trial was processed beyond the budget", it < NIters)
       \cup Flag("C03", "the run failed in a local search no trial of the batch was to start",
                 \E x \in C!Range(Ints(it, IF T.batch < NIters - it THEN T.batch ELSE NIters - it)) :
                    TOutcome(x) = 0 /\ TRUE \in C!Gate(st, x))
       ELSE bad
       \cup Flag("C05", "stopped before the budget although the target was not reached",
                 ~s2 \/ it >= NIters \/ C!TargetReached(st))
       \cup Flag("C02", "returned set is not the set of the run", Ev.nofeas \/ Ev.result = st.set)
       \cup Flag("C01", "best optimum not returned", Ev.nofeas \/ C!BestKept(Ev.result, reached))
       \cup Flag("C07", "no-feasible-solution error", Ev.nofeas = (st.set = <<>>))
       \cup Flag("C07", "out-of-bounds solution returned", C!OnlyInBounds(Ev.result))
       \cup (IF ~Ev.observed \/ ~s2 THEN {} ELSE
             LET due(m) == Cardinality({x \in T.start..(m - 1) : T.freq > 0 /\ x % T.freq = 0})
             IN Flag("C18", "number of Stage 2 callbacks",
                     IF C!TargetReached(st)
                     THEN Ev.ncb <= due(it) /\ Ev.ncb >= due(IF it - T.batch > T.start THEN it - T.batch ELSE T.start)
                     ELSE Ev.ncb = due(it)))
       \cup (IF ~Ev.observed \/ ~s2 \/ ~T.obs2 THEN {} ELSE
             LET c == Ev.fin IN
             Flag("C17", "final metrics: state",
               /\ c.size = Len(st.set)
               /\ IF st.set = <<>> THEN c.best = 0 ELSE \E m \in BestOf(st) : c.best = TVal(m) /\ c.bp = m
               /\ C!TargetReached(st) \/ it = 0 \/ (SameThr(c.thr, st.thr) /\ c.unch = st.unch))
             \cup Flag("C17", "final metrics: counters",
               IF C!TargetReached(st)
               THEN c.calls <= ob.calls /\ c.ev <= ob.ev /\ c.imp <= ob.imp
                    /\ (T.batch = 1 => c.calls = ob.calls /\ c.ev = ob.ev /\ c.imp = ob.imp)
               ELSE c.calls = ob.calls /\ c.ev = ob.ev /\ c.imp = ob.imp))

Step == /\ l <= Len(T.ev)
        /\ (EvInit \/ EvResume \/ EvBatch \/ EvEnd)
        /\ l' = l + 1 /\ t' = t
        /\ (l = Len(T.ev) => PrintT(ToJson([done |-> T.id, bad |-> bad'])))

Next == Step
Spec == Init /\ [][Next]_vars

\* Used when a single rejected run is replayed: the counterexample ends in the offending step
Accepted == bad = {}
=============================================================================
