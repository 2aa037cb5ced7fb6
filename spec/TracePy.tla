------------------------------ MODULE TracePy ------------------------------
(* Walks the operations of one Python process and judges each against what
   the Rust library does. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT File
Traces == JsonDeserialize(File)
P == INSTANCE PyBindings
VARIABLES t, l, hurt, bad
vars == <<t, l, hurt, bad>>
T == Traces[t]
Op == T.ops[l]
Flag(why, cond) == IF cond THEN {} ELSE {<<"C24", why>>}
After == IF hurt THEN " (after a failed optimisation)" ELSE ""
Init == t \in 1..Len(Traces) /\ l = 1 /\ hurt = FALSE /\ bad = {}
Step == /\ l <= Len(T.ops)
        /\ bad' = bad \cup (IF P!Fits(Op) THEN {} ELSE
             Flag("operation " \o ToString(l) \o ": " \o Op.out \o " is not the outcome of " \o Op.kind \o After, Op.out \in P!AllowedOut(Op))
             \cup Flag("solution set differs from the library's" \o After, Op.out # "ok" \/ Op.exp = 0 \/ Op.got = Op.exp)
             \cup Flag("observer state differs from the library's", Op.out # "ok" \/ Op.gotobs = Op.expobs)
             \cup Flag("observer callbacks differ from the library's", Op.out # "ok" \/ Op.gotcbs = Op.expcbs)
             \cup Flag("progress log differs from the library's", Op.out # "ok" \/ Op.gotlog = Op.explog)
             \cup Flag("number of calls differs from the library's", Op.out # "ok" \/ Op.gotcalls = Op.expcalls)
             \cup Flag("views of the solution set disagree", Op.out # "ok" \/ Op.views)
             \cup Flag("builder or parameter values are not those given", Op.out # "ok" \/ Op.attrs)
             \cup Flag("constraints of another problem were evaluated", Op.foreign = 0))
        /\ hurt' = (hurt \/ Op.out # "ok")
Fin == /\ l = Len(T.ops) + 1 /\ bad' = bad /\ hurt' = hurt
       /\ PrintT(ToJson([done |-> T.id, bad |-> bad]))
Next == (Step \/ Fin) /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
