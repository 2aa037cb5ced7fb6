---------------------------- MODULE TraceFaults ----------------------------
(* Walks the calls of a recorded run, some of which failed, and judges its
   outcome. ev: <<kind, context, ok, call id>>; base: the call ids of the
   undisturbed run; set: whether each returned solution was evaluated. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT File
Traces == JsonDeserialize(File)
F == INSTANCE Faults
VARIABLES t, l, st, ok, bad
vars == <<t, l, st, ok, bad>>
T == Traces[t]
Flag(p, why, cond) == IF cond THEN {} ELSE {<<p, why>>}
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = F!Start /\ ok = TRUE /\ bad = {}
E == T.ev[l]
Step == /\ l <= Len(T.ev)
        /\ st' = F!Call(T.alg, T.resumed, st, <<E[1], E[2], E[3] = 1>>)
        /\ ok' = (ok /\ E[3] = 1)
        /\ bad' = bad
           \cup Flag("C23", "a call after a failure that ends the run", F!AllowedCall(T.par, st))
           \cup Flag("C23", "calls differ from those of the undisturbed run before a failure matters",
                     T.par \/ T.nobase \/ ~(ok \/ E[2] = 2) \/ (l <= Len(T.base) /\ T.base[l] = E[4]))
Fin == /\ l = Len(T.ev) + 1
       /\ bad' = bad
          \cup Flag("C23", "panic", T.out # "panic")
          \cup Flag("C23", "outcome",
                    T.out = "panic" \/ F!AllowedOutcome(st, T.out) \/ (T.fragile /\ st.must = {} /\ T.out = F!LocalError))
          \cup Flag("C23", "a solution that was not evaluated", \A i \in 1..Len(T.set) : T.set[i])
       /\ UNCHANGED <<st, ok>>
       /\ PrintT(ToJson([done |-> T.id, bad |-> bad']))
Next == (Step \/ Fin) /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
