----------------------------- MODULE TraceReport -----------------------------
(* Reads the statements of real reports one after another.                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT File
Traces == JsonDeserialize(File)
R == INSTANCE Report
VARIABLES t, l, bad
vars == <<t, l, bad>>
T == Traces[t]
Want == R!Write(T.set)
Flag(why, cond) == IF cond THEN {} ELSE {<<"C26", why>>}
Init == t \in 1..Len(Traces) /\ l = 1 /\ bad = {}
What(x) == CASE x = R!Total -> "number of solutions" [] x = R!Best -> "best objective" [] x = R!Sol -> "numbering of the solutions"
             [] x = R!Obj -> "objective" [] x = R!Par -> "parameters" [] x = R!Block -> "constraints shown or not"
             [] x = R!Con -> "constraint value, status or description" [] OTHER -> "statement"
Step == /\ l <= Len(T.doc)
        /\ bad' = bad \cup (IF l > Len(Want) THEN {<<"C26", "the report says more than the set holds">>}
                            ELSE Flag(What(Want[l][1]), T.doc[l] = Want[l]))
Fin == /\ l = Len(T.doc) + 1
       /\ bad' = bad \cup Flag("the report is incomplete", Len(Want) <= Len(T.doc)) \cup Flag("unreadable line", T.other = 0)
                     \cup Flag("read back", LET g == R!Read(T.doc) IN bad # {} \/ Len(Want) # Len(T.doc) \/ (g.total = Len(T.set.sols) /\ g.order))
       /\ PrintT(ToJson([done |-> T.id, bad |-> bad']))
Next == (Step \/ Fin) /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
