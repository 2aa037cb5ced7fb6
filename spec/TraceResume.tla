----------------------------- MODULE TraceResume ----------------------------
(***************************************************************************)
(* Judges the recorded history of a run that was stopped and restarted.     *)
(* trace: id, n (trials), b, f, keep, obs (callbacks recorded),             *)
(*   truth: state id after c trials, as <<[c, st]>>, end (result id)        *)
(*   segs: <<[how ("killed", "ok", "err"), its (trials processed, by number),*)
(*           disk0, disk (<<[c, st]>> before and after), res (result id)]>> *)
(***************************************************************************)
EXTENDS Resume, TLC, Json
CONSTANT File
Traces == JsonDeserialize(File)
VARIABLES t, l, bad
T == Traces[t]
Flag(why, cond) == IF cond THEN {} ELSE {<<"C12", why>>}
S(x) == {x[i] : i \in 1..Len(x)}
Init == t \in 1..Len(Traces) /\ l = 1 /\ bad = {}
TopOf(D) == IF D = {} THEN 0 ELSE LET C == {d.c : d \in D} IN CHOOSE c \in C : \A x \in C : x <= c
Truth == S(T.truth)
Seg == T.segs[l]
Step == /\ l <= Len(T.segs) /\ l' = l + 1 /\ t' = t
        /\ LET D0 == S(Seg.disk0) D == S(Seg.disk) c0 == TopOf(D0)
               its == S(Seg.its)
               \* completed trials: whole batches
               E == {e \in Ends(c0, T.n, T.b) \cup {c0} : (c0 + 1)..e \subseteq its}
               c1 == CHOOSE e \in E : \A x \in E : x <= e
               batch(i) == (i - c0 - 1) \div T.b
           IN bad' = bad
            \cup Flag("a checkpoint on disk is damaged", Seg.readable)
            \cup Flag("a checkpoint differs from the state of the uninterrupted run",
                      \A d \in D : d \in Truth)
            \cup Flag("the restarted run does not continue right after the latest checkpoint",
                      /\ Len(Seg.its) = Cardinality(its)
                      /\ its \subseteq (c0 + 1)..After(c1, T.n, T.b)
                      /\ \A i, j \in 1..Len(Seg.its) : i < j => batch(Seg.its[i]) <= batch(Seg.its[j]))
            \cup Flag("a checkpoint got lost", \A d \in D0 : T.keep => d \in D)
            \cup Flag("progress was lost", TopOf(D) >= c0)
            \cup Flag("no checkpoint was written when one was due",
                      (T.obs /\ Seg.how # "err" /\ Seg.how # "inmiddle" /\ c1 > c0 /\ c1 < T.n) => TopOf(D) >= Newest(c1, T.n, T.b, T.f))
            \cup Flag("a finished run leaves no final checkpoint", (Seg.how = "ok" /\ T.n > 0 /\ ~T.stage1only) => TopOf(D) = T.last)
            \cup Flag("the result differs from that of the uninterrupted run",
                      Seg.how \in {"ok", "err"} => Seg.res = T.end)
            \cup Flag("restarting a finished run processed trials again", Seg.after_end => Seg.its = <<>>)
Fin == /\ l = Len(T.segs) + 1 /\ l' = l + 1 /\ UNCHANGED <<t, bad>>
       /\ PrintT(ToJson([done |-> T.id, bad |-> bad]))
Next == Step \/ Fin
Spec == Init /\ [][Next]_<<t, l, bad>>
=============================================================================
