----------------------------- MODULE TraceLocal -----------------------------
(* Walks a recorded local search (with tracking), the same search without
   tracking and the algorithm called directly, in lock step. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT File
Traces == JsonDeserialize(File)
L == INSTANCE LocalSearch
VARIABLES t, l, st, bad
vars == <<t, l, st, bad>>
T == Traces[t]
Flag(p, why, cond) == IF cond THEN {} ELSE {<<p, why>>}
At(s, i) == IF i <= Len(s) THEN s[i] ELSE <<>>
N == Len(T.ev)
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ st = L!Start(T.x0)
        /\ bad = Flag("C21", "built configuration", T.nocfg \/ L!Apply(T.cfg0, T.calls) = T.cfg)
Step == /\ l <= N
        /\ bad' = bad
           \cup Flag("C20", "a call the algorithm does not make, or a call after a failed one", L!AllowedCall(T.alg, st, T.ev[l]))
           \cup Flag("C20", "tracking changes the search", At(T.plain, l) = T.ev[l])
           \cup Flag("C21", "not the search of the configured algorithm", T.noref \/ At(T.ref, l) = T.ev[l])
        /\ st' = L!Call(T.alg, st, T.ev[l])
Fin == /\ l = N + 1
       /\ bad' = bad
          \cup Flag("C20", "tracking changes the search", Len(T.plain) = N)
          \cup Flag("C20", "tracking changes the result", T.out = T.outp)
          \cup Flag("C21", "not the search of the configured algorithm", T.noref \/ Len(T.ref) = N)
          \cup Flag("C21", "not the result of the configured algorithm", T.noref \/ T.out = T.outr)
          \cup (IF T.out.t = "ok" THEN
                  Flag("C20", "a failed call did not end the search with an error", L!MayReturn(T.alg, st))
                  \cup Flag("C20", "the objective returned is not the one at the point returned",
                            IF T.l1 THEN T.gen1 ELSE L!Genuine(st, T.out.p, T.out.v))
                  \cup Flag("C20", "the result is worse than the starting point", T.l1 \/ L!NotWorse(T.alg, st, T.out.v))
                  \cup Flag("C20", "number of evaluations", T.count = st.n)
                ELSE Flag("C20", "panic", T.out.t # "panic"))
       /\ st' = st
       /\ PrintT(ToJson([done |-> T.id, bad |-> bad']))
Next == (Step \/ Fin) /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
