--------------------------- MODULE TraceObserver ---------------------------
(* Validates the callbacks recorded from real runs against ObserverProtocol. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT File
Traces == JsonDeserialize(File)
P == INSTANCE ObserverProtocol
VARIABLES t, l, ph, prev, n2, bad
vars == <<t, l, ph, prev, n2, bad>>
T == Traces[t]
cfg == T.cfg
Flag(p, why, cond) == IF cond THEN {} ELSE {<<p, why>>}
S(x) == { x[i] : i \in 1..Len(x) }
Truth == [nref0 |-> T.nref0, nref |-> T.nref, ntri |-> T.ntri, best4 |-> S(T.best4), best5 |-> S(T.best5)]
Zero == [ref |-> 0, tri |-> 0, ev |-> 0, best |-> 0, t1 |-> 0]
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ ph = (IF T.resumed THEN 7 ELSE 0) /\ prev = Zero /\ n2 = 0 /\ bad = {}

Cb == T.cbs[l]
\* Stage 1 callback: some view of Stage 1, or (nothing tracked) before Stage 2 could have begun
IsStage1 == /\ ph < 7
            /\ \/ Cb.v1
               \/ ~cfg.tr1 /\ ~Cb.v2 /\ Cb.pre2
Step1 == /\ l <= Len(T.cbs) /\ IsStage1
         /\ bad' = bad
            \cup Flag("C18", "views during Stage 1", P!StageOneView(cfg, Cb))
            \cup Flag("C18", "elapsed time", P!Timing(cfg, Cb))
            \cup Flag("C18", "order of Stage 1 callbacks", P!Order(cfg, ph, Cb))
            \cup Flag("C18", "mode: Stage 1 metrics updated", P!Untouched1(cfg, Cb))
            \cup Flag("C17", "Stage 1 metrics", P!Metrics1(cfg, Truth, Cb))
            \cup Flag("C17", "Stage 1 counters decreased", P!Monotone1(prev, Cb))
         /\ ph' = (IF P!Obs1(cfg) THEN Cb.sub ELSE IF ph < 6 THEN ph + 1 ELSE 6)
         /\ prev' = Cb /\ n2' = n2
Step2 == /\ l <= Len(T.cbs) /\ ~IsStage1
         /\ bad' = bad
            \cup Flag("C18", "Stage 2 callback before Stage 1 was complete",
                      ph = 7 \/ (P!Obs1(cfg) => ph = 6))
            \cup Flag("C18", "views during Stage 2", P!StageTwoView(cfg, Cb))
            \cup Flag("C18", "elapsed time", P!Timing(cfg, Cb))
            \cup Flag("C18", "mode: Stage 2 metrics updated", P!Untouched2(cfg, Cb))
            \cup Flag("C18", "mode: Stage 1 metrics updated", P!Untouched1(cfg, Cb))
            \cup Flag("C17", "Stage 1 metrics changed after Stage 1",
                      T.resumed \/ ph = 0 \/ P!Frozen1(prev, Cb))
            \cup Flag("C18", "clock of Stage 1 runs on after Stage 1",
                      n2 = 0 \/ P!ClockStopped(prev, Cb))
            \cup Flag("C18", "Stage 2 callbacks of an unobserved stage",
                      P!Obs2(cfg) \/ n2 < T.due)
         /\ ph' = 7 /\ prev' = Cb /\ n2' = n2 + 1
Fin == /\ l = Len(T.cbs) + 1
       /\ bad' = bad
          \cup Flag("C18", "Stage 1 callbacks missing", T.resumed \/ ~P!Obs1(cfg) \/ ph \in {6, 7})
          \cup Flag("C18", "number of Stage 2 callbacks", n2 = T.due \/ (T.slack > 0 /\ n2 <= T.due /\ n2 >= T.due - T.slack))
          \cup Flag("C18", "final views", T.fin.v1 = FALSE /\ T.fin.v1f = cfg.tr1 /\ T.fin.el = cfg.timing
                                        /\ T.fin.v2 = (cfg.tr2 /\ T.stage2))
          \cup Flag("C17", "final Stage 1 metrics", T.resumed \/ ~P!Obs1(cfg) \/ n2 = 0 \/ P!Frozen1(prev, T.fin))
          \cup Flag("C18", "mode: Stage 2 metrics updated", ~T.stage2 \/ P!Untouched2(cfg, T.fin))
       /\ UNCHANGED <<ph, prev, n2>>
       /\ PrintT(ToJson([done |-> T.id, bad |-> bad']))
Next == (Step1 \/ Step2 \/ Fin) /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
