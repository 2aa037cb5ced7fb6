--------------------------- MODULE MCProgressLog ---------------------------
(* Any run as an observer sees it, and the log written along the way.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
P == INSTANCE ProgressLog
CONSTANTS MaxCallbacks, MaxIter
VARIABLES cfg, ph, v, known, log, n, start, ch, wrote
vars == <<cfg, ph, v, known, log, n, start, ch, wrote>>
Cfgs == [kind : {"default", "stage1", "stage2"}, unique : BOOLEAN, obs1 : BOOLEAN, obs2 : BOOLEAN, resumed : BOOLEAN]
Blank == [v1 |-> FALSE, v2 |-> FALSE, sub |-> 0, ev |-> 0, ref |-> 0, tri |-> 0, best |-> 0, bp |-> 0, it |-> 0,
          best2 |-> 0, last |-> 0, size |-> 0, thr |-> 0, calls |-> 0, evals2 |-> 0, chg |-> <<0, 0>>]
Init == /\ cfg \in Cfgs /\ ph = (IF cfg.resumed THEN 6 ELSE 0) /\ v = Blank /\ known = P!Nothing /\ log = <<>> /\ n = 0
        /\ start \in (IF cfg.resumed THEN 0..1 ELSE {0}) /\ ch = FALSE /\ wrote = <<>>
Write(w) == LET d == P!Due(cfg.kind, cfg.unique, known, w) IN
            log' = log \o d /\ wrote' = d /\ known' = P!Known(cfg.kind, known, w) /\ v' = w
Stage1 == /\ ph < 6 /\ ph' = ph + 1
          /\ Write([Blank EXCEPT !.v1 = cfg.obs1, !.sub = IF cfg.obs1 THEN ph' ELSE 0, !.ev = ph', !.ref = 3])
          /\ UNCHANGED <<cfg, n, start, ch>>
\* a Stage 2 iteration: a search is made or not, finds something better or not; the callback comes or not
Iterate == /\ ph = 6 /\ start + n < MaxIter /\ n < MaxCallbacks /\ n' = n + 1
           /\ \E best \in {v.best2, v.best2 - 1}, calls \in {v.calls, v.calls + 1}, cb \in BOOLEAN :
                /\ (best < v.best2) => (calls > v.calls)
                /\ LET w == [Blank EXCEPT !.v2 = TRUE, !.it = IF cfg.obs2 THEN start + n' ELSE 0, !.best2 = IF cfg.obs2 THEN best ELSE 0,
                                  !.calls = IF cfg.obs2 THEN calls ELSE 0, !.evals2 = @, !.chg = IF cfg.obs2 THEN <<best, calls>> ELSE <<0, 0>>]
                   IN IF cb THEN Write(w) /\ ch' = FALSE
                      ELSE v' = [w EXCEPT !.v2 = FALSE] /\ ch' = TRUE /\ wrote' = <<>> /\ UNCHANGED <<log, known>>
           /\ UNCHANGED <<cfg, ph, start>>
Next == Stage1 \/ Iterate
Spec == Init /\ [][Next]_vars

Kinds == { log[i][1] : i \in 1..Len(log) }
OnlyItsStage == /\ cfg.kind = "stage1" => 10 \notin Kinds
                /\ cfg.kind = "stage2" => Kinds \subseteq {10}
OnlyObserved == (~cfg.obs1 => Kinds \subseteq {10}) /\ (~cfg.obs2 => 10 \notin Kinds)
MilestonesOnceInOrder == \A i, j \in 1..Len(log) : i < j /\ log[j][1] < 10 => log[i][1] < log[j][1]
Iterations == \A i, j \in 1..Len(log) : i < j /\ log[i][1] = 10 => log[j][1] = 10 /\ log[i][2] < log[j][2]
\* after a callback the last Stage 2 line (if the kind writes any) tells the current quantities
NoChangeLost == v.v2 /\ v.it > 0 /\ P!Writes2(cfg.kind) =>
                  /\ Len(log) > 0 /\ log[Len(log)][1] = 10
                  /\ log[Len(log)][3] = v.best2 /\ log[Len(log)][7] = v.calls
\* with unique updates two lines never tell the same
NoRepetition == cfg.unique => \A i \in 1..(Len(log) - 1) :
                  log[i][1] = 10 => <<log[i][3], log[i][7]>> # <<log[i + 1][3], log[i + 1][7]>>
AllWithoutFilter == ~cfg.unique /\ v.v2 /\ v.it > 0 /\ P!Writes2(cfg.kind) => Len(wrote) = 1 /\ wrote[1][2] = v.it
MilestonesComplete == ph >= 5 /\ ~cfg.resumed /\ cfg.obs1 /\ P!Writes1(cfg.kind) =>
                        \A m \in 1..5 : m \in Kinds
=============================================================================
