------------------------------ MODULE MCCodec ------------------------------
(* All shapes of a checkpoint: round trip, every strict prefix is rejected,  *)
(* every single damaged token decodes to an error or to a value (never stuck)*)
(* Emit: the shapes, for the real code.                                      *)
EXTENDS CheckpointCodec, Json
CONSTANTS Shapes, Emit, Damage
VARIABLES sh, phase
S(n) == [i \in 1..n |-> 7]
LS(k) == IF k = 1 THEN <<1, <<7, 7, 7, S(2)>>>> ELSE <<2, <<7, 7, 7, 7, 7, 7, S(2)>>>>
SolverOf(s) == CASE s.solver = 1 -> <<1, <<7, 7, 7, 7, IF s.l1 THEN <<7>> ELSE <<>>, LS(s.ls)>>>>
                 [] s.solver = 2 -> <<2, S(7)>>
                 [] s.solver = 3 -> <<3, <<7, LS(s.ls)>>>>
                 [] s.solver = 4 -> <<4, <<<<s.ls, <<>>>>, 7, 7, 7, 7>>>>
                 [] s.solver = 5 -> <<5, <<7, 7, 7, LS(s.ls)>>>>
                 [] s.solver = 6 -> <<6, <<7, 7, 7, 7, 7, S(s.ls)>>>>
Sols(n, d) == [i \in 1..n |-> <<S(d), 7>>]
O(b) == IF b THEN <<7>> ELSE <<>>
Value(s) == << <<7, 7, 7, 7, 7, 7, SolverOf(s), 7>>, 7, 7, IF s.set < 0 THEN <<>> ELSE <<Sols(s.set, s.dim)>>,
               [i \in 1..s.nref |-> S(s.dim)], 7, 7, Sols(s.ndist, s.dim), 7, O(s.target), 7, O(s.batch), 7, 7, 7, S(s.ts)>>
Init == sh \in Shapes /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ sh' = sh /\ (Emit => PrintT(ToJson(sh)))
Spec == Init /\ [][Next]_<<sh, phase>>
W == Enc(Checkpoint, Value(sh))
RoundTrip == ~Emit => Decode(Checkpoint, W) = Ok(Value(sh), Len(W) + 1)
PrefixRejected == ~Emit => \A n \in 0..(Len(W) - 1) : ~Decode(Checkpoint, SubSeq(W, 1, n)).ok
DamageIsTotal == ~Emit => \A i \in 1..Len(W), v \in Damage :
    LET r == Decode(Checkpoint, [W EXCEPT ![i] = v]) IN r.ok \in BOOLEAN /\ (r.ok => r.p <= Len(W) + 1)
=============================================================================
