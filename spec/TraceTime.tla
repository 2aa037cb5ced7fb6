----------------------------- MODULE TraceTime -----------------------------
(* Judges recorded sessions under a virtual clock: d - durations of the batches
   of the same session without a limit, lim - <<>> or <<limit>>, ran - batches
   processed, states - state and result after 0, 1, ... batches with the budget
   ended there (0: unknown), got - state and result of the limited session. *)
EXTENDS TimeLimit, FiniteSets, TLC, Json
CONSTANT File
Traces == JsonDeserialize(File)
VARIABLES t, l, elapsed, bad
vars == <<t, l, elapsed, bad>>
T == Traces[t]
Lim == T.lim
Flag(p, why, cond) == IF cond THEN {} ELSE {<<p, why>>}
Init == t \in 1..Len(Traces) /\ l = 1 /\ elapsed = 0 /\ bad = {}
\* batch l of the limited session began
Step == /\ l <= T.ran
        /\ bad' = bad \cup Flag("C06", "a batch began after the limit had elapsed", Lim = <<>> \/ elapsed <= Lim[1])
                      \cup Flag("C06", "more batches than without a limit", l <= Len(T.d))
        /\ elapsed' = IF l <= Len(T.d) THEN elapsed + T.d[l] ELSE elapsed
Fin == /\ l = T.ran + 1
       /\ bad' = bad
          \cup Flag("C06", "cut short before the limit", T.ran \in Allowed(T.d, Lim) \/ T.ran >= Len(T.d) \/ MayStop(T.d, Lim, T.ran))
          \cup Flag("C06", "state or result differs from that of a budget ended at this batch",
                    T.ran + 1 > Len(T.states) \/ T.states[T.ran + 1] = 0 \/ T.states[T.ran + 1] = T.got)
          \cup Flag("C06", "panic or error", T.fine)
       /\ UNCHANGED elapsed
       /\ PrintT(ToJson([done |-> T.id, bad |-> bad']))
Next == (Step \/ Fin) /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
