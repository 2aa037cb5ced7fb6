---------------------------- MODULE MCValidation ----------------------------
(* The phases of construction as a machine, over every abstract input; also
   the source of the inputs given to the real library. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Pops, MaxPts, MaxDim, Emit
V == INSTANCE Validation
VARIABLES in, ph, res
vars == <<in, ph, res>>
UpTo(S, n) == UNION { [1..k -> S] : k \in 0..n }
TF == {"neg", "zero", "pos", "nan"}
BC == {"ok", "rev", "eq", "nan", "inf", "wide"}
PC == {"in", "out", "dim"}
Inputs ==
  [ pop : Pops, iters : Pops, tf : TF, df : TF, pts : {<<>>}, bounds : {<<"ok">>, <<"rev">>}, ck : {"none", "file"} ]
  \cup [ pop : {4, 6}, iters : {4}, tf : {"pos", "nan"}, df : {"pos", "zero"}, pts : UpTo(PC, MaxPts), bounds : UpTo(BC, MaxDim) \ {<<>>},
         ck : {"none", "ok"} ]
Init == in \in Inputs /\ ph = 1 /\ res = <<>>
Step == /\ ph <= 4 /\ res = <<>>
        /\ LET e == V!ErrorsOf(in, V!Phases[ph])
           IN IF e = {} THEN ph' = ph + 1 /\ res' = <<>> /\ (IF ph = 4 /\ Emit THEN PrintT(ToJson([i |-> in])) ELSE TRUE)
              ELSE \E x \in e : /\ res' = <<V!Phases[ph], x>> /\ ph' = ph
                                /\ (IF Emit THEN PrintT(ToJson([i |-> in])) ELSE TRUE)
        /\ in' = in
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Ends == <>(res # <<>> \/ ph = 5)
RejectedIffInvalid == /\ res # <<>> => ~V!Valid(in) /\ res \in V!Outcomes(in)
                      /\ ph = 5 => V!Valid(in)
Specific == res # <<>> => res[2].e \in V!Errors
=============================================================================
