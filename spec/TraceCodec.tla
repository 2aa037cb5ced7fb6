----------------------------- MODULE TraceCodec -----------------------------
(* Judges recorded round trips and reads of damaged files.                  *)
(* trace: id, same <<BOOLEAN>>, bytes, display, missing, err (text or ""),   *)
(* damage <<[what, a, b]>>: what the manager's and the free reader answered  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT File
Traces == JsonDeserialize(File)
VARIABLES t, l, bad
T == Traces[t]
Flag(why, cond) == IF cond THEN {} ELSE {<<"C16", why>>}
Errors == {"io", "decode", "notfound", "invalid"}
Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Trip == /\ l = 0 /\ l' = 1 /\ t' = t
        /\ bad' = Flag("saving or loading failed", T.err = "")
                  \cup (IF T.err # "" THEN {} ELSE
                  Flag("a loaded checkpoint differs from the saved one", \A i \in 1..Len(T.same) : T.same[i])
                  \cup Flag("saving the loaded checkpoint again gives another content", T.bytes)
                  \cup Flag("a missing file is not reported as such", T.missing = "notfound")
                  \cup Flag("a checkpoint cannot be displayed", T.display))
Dam == /\ l \in 1..Len(T.damage) /\ l' = l + 1 /\ t' = t
       /\ LET d == T.damage[l] IN
          bad' = bad \cup Flag("the two readers disagree", d.a = d.b)
             \cup Flag("a damaged file is not reported as an error or value: " \o d.a, d.a \in Errors \cup {"same", "other"})
             \cup Flag("a truncated file was loaded", d.what = "truncated" => d.a \in Errors)
             \cup Flag("a foreign file was loaded", d.what = "foreign" => d.a \in Errors)
Fin == /\ l = Len(T.damage) + 1 /\ l' = l + 1 /\ UNCHANGED <<t, bad>>
       /\ PrintT(ToJson([done |-> T.id, bad |-> bad]))
Next == Trip \/ Dam \/ Fin
Spec == Init /\ [][Next]_<<t, l, bad>>
=============================================================================
