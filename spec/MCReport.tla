------------------------------ MODULE MCReport ------------------------------
(* Every small solution set is read back from its report.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
R == INSTANCE Report
CONSTANTS MaxSols, MaxCons
Vals == 1..2
ConV == [val : Vals, sat : BOOLEAN]
SeqN(S, n) == [1..n -> S]
VARIABLES s, doc, k
vars == <<s, doc, k>>
Sets == UNION { UNION { UNION { { [sols |-> ss, best |-> IF n = 0 THEN 0 ELSE ss[b].obj, desc |-> d, shown |-> sh] :
                  ss \in SeqN([obj : Vals, par : Vals, cons : SeqN(ConV, m)], n), b \in 1..(IF n = 0 THEN 1 ELSE n), sh \in BOOLEAN } :
                  d \in UNION { SeqN({5, 6}, x) : x \in 0..(m + 1) } } : m \in 0..MaxCons } : n \in 0..MaxSols }
Init == s \in Sets /\ doc = R!Write(s) /\ k = 0
\* the report is printed statement by statement
Next == k < Len(doc) /\ k' = k + 1 /\ UNCHANGED <<s, doc>>
Spec == Init /\ [][Next]_vars
Got == R!Read(SubSeq(doc, 1, k))
NeverMore == Len(Got.sols) <= Len(s.sols) /\ Got.order
Complete == k = Len(doc) =>
   /\ Got.total = Len(s.sols) /\ Len(Got.sols) = Len(s.sols) /\ Got.best = s.best
   /\ \A i \in 1..Len(s.sols) : /\ Got.sols[i].obj = s.sols[i].obj /\ Got.sols[i].par = s.sols[i].par
                                /\ Got.sols[i].cons = (IF s.shown THEN s.sols[i].cons ELSE <<>>)
=============================================================================
