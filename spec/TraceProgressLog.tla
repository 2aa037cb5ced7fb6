-------------------------- MODULE TraceProgressLog --------------------------
(* Validates progress logs written by real runs. cbs: what a recording        *)
(* callback saw in the same run; lines: what the built-in callback wrote.    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT File
Traces == JsonDeserialize(File)
P == INSTANCE ProgressLog
VARIABLES t, l, k, known, bad
vars == <<t, l, k, known, bad>>
T == Traces[t]
Flag(why, cond) == IF cond THEN {} ELSE {<<"C25", why>>}
Init == t \in 1..Len(Traces) /\ l = 1 /\ k = 1 /\ known = P!Nothing /\ bad = {}
Cb == T.cbs[l]
Line(i) == IF i <= Len(T.lines) THEN T.lines[i] ELSE <<0>>
Step == /\ l <= Len(T.cbs)
        /\ LET due == P!Due(T.kind, T.unique, known, Cb)
               ok == \A i \in 1..Len(due) : Line(k + i - 1) = due[i]
               same == \A i \in 1..Len(due) : Line(k + i - 1)[1] = due[i][1]
           IN /\ bad' = bad \cup Flag("line missing or out of place", same)
                            \cup Flag("line does not tell the metrics at its callback", ~same \/ ok)
              /\ k' = k + Len(due)
        /\ known' = P!Known(T.kind, known, Cb)
Fin == /\ l = Len(T.cbs) + 1
       /\ bad' = bad \cup Flag("lines nobody asked for", k >= Len(T.lines) + 1) \cup Flag("lines that are none of the log's", T.other = 0)
       /\ UNCHANGED <<k, known>>
       /\ PrintT(ToJson([done |-> T.id, bad |-> bad']))
Next == (Step \/ Fin) /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
