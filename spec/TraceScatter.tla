---------------------------- MODULE TraceScatter ----------------------------
(* Judges recorded executions of Stage 1 against ScatterSearch. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT File
Traces == JsonDeserialize(File)
S == INSTANCE ScatterSearch
VARIABLES t, ph, chosen, md, bad
vars == <<t, ph, chosen, md, bad>>
T == Traces[t]
Flag(p, why, cond) == IF cond THEN {} ELSE {<<p, why>>}
Range(s) == { s[j] : j \in 1..Len(s) }
All(s) == \A j \in 1..Len(s) : s[j]
NC == Len(T.d)
Cands == 1..NC
MinOf(row, n) == IF n = 0 THEN S!Inf ELSE CHOOSE d \in { row[j] : j \in 1..n } : \A j \in 1..n : d <= row[j]

Init == /\ t \in 1..Len(Traces) /\ ph = "div" /\ chosen = {} /\ bad = {}
        /\ md = [ c \in Cands |-> MinOf(T.d[c], T.nreq) ]
\* farthest-first: T.mem is the order in which the members can have been added
Next1 == T.mem[Cardinality(chosen) + 1]
IsFarthest(c) == \A e \in Cands : e \in chosen \/ md[e] <= md[c]
Choose == /\ ph = "div" /\ Cardinality(chosen) < Len(T.mem)
          /\ LET c == Next1
             IN IF IsFarthest(c)
                THEN /\ chosen' = chosen \cup {c}
                     /\ md' = [ e \in Cands |-> S!Min(md[e], T.d[e][T.nreq + c]) ]
                     /\ UNCHANGED <<t, ph, bad>>
                ELSE /\ bad' = bad \cup {<<"C08", "members not added farthest-first">>}
                     /\ ph' = "judge" /\ UNCHANGED <<t, chosen, md>>
Spread == /\ ph = "div" /\ Cardinality(chosen) = Len(T.mem) /\ ph' = "judge" /\ UNCHANGED <<t, chosen, md, bad>>

V(id) == T.v[id]
Old == 1..T.n0
Worst == CHOOSE w \in { V(j) : j \in Old } : \A j \in Old : V(j) <= w
Best(ids) == CHOOSE w \in { V(j) : j \in ids } : \A j \in ids : w <= V(j)
Tr(j) == T.trials[j]
NT == Len(T.trials)
Entering == { T.n0 + j : j \in { j \in 1..NT : Tr(j).ev /\ Tr(j).ok /\ S!Improves(V(T.n0 + j), Worst) } }
New == Range(T.new)
Exs == [ j \in 1..NT |-> { <<Tr(j).ex[x][1], Tr(j).ex[x][2]>> : x \in 1..Len(Tr(j).ex) } ]

JudgeErr == Flag("C08", "insufficient feasible candidates not reported, or reported although there are enough",
                 T.cons /\ S!Insufficient(T.nf, T.nreq, T.pop))
Judge8 ==
  Flag("C08", "too few feasible candidates, yet no error", ~T.cons \/ ~S!Insufficient(T.nf, T.nreq, T.pop))
  \cup Flag("C08", "a reference point is out of bounds", All(T.inb))
  \cup Flag("C08", "a reference point violates a constraint", All(T.feas))
  \cup Flag("C08", "a seed or user point is missing", All(T.reqin))
  \cup Flag("C08", "size of the initial reference set", T.n0 = S!Size0(T.nreq, T.pop))
  \cup Flag("C08", "a member is neither a seed, a user point nor a sample of the box", T.extra = 0)
  \cup Flag("C08", "a point is paired with an objective that is not its own", All(T.vok))
  \cup Flag("C08", "the initial points are not evaluated exactly once each", T.evonce)
  \cup Flag("C08", "the best point does not have the best objective", T.bestv = Best(New) /\ T.bestv2 = Best(New))
Judge9 ==
  IF ~T.ordered THEN {} ELSE
  Flag("C09", "trial points are not the combinations of the leading points", S!Explained(Exs, S!Leading(T.n0)))
  \cup Flag("C09", "a trial point is out of bounds", All(T.tinb))
  \cup Flag("C09", "an evaluated trial is infeasible or too close", \A j \in 1..NT : Tr(j).ev => S!MayEvaluate(Tr(j), T.thr))
  \cup Flag("C09", "a feasible and diverse trial was not evaluated", \A j \in 1..NT : S!MustEvaluate(Tr(j), T.thr) => Tr(j).ev)
  \cup Flag("C09", "evaluations other than of trials", T.stray = 0)
Exs2 == [ j \in 1..Len(T.ex2) |-> { <<T.ex2[j][x][1], T.ex2[j][x][2]>> : x \in 1..Len(T.ex2[j]) } ]
Judge9b ==
  Flag("C09", "a further round does not combine the best points of the new set",
       ~T.ok2 \/ S!Explained(Exs2, S!Leading(Len(T.new)))) \cup
  Flag("C09", "a point of the new reference set has an unknown origin", 0 \notin New)
  \cup (IF 0 \in New THEN {} ELSE
        Flag("C09", "the new reference set is not the best of the union",
             S!KeepsBest(Old, Entering, New, [ x \in 1..Len(T.v) |-> T.v[x] ], T.pop) /\ Len(T.new) = Cardinality(New)))
  \cup Flag("C09", "a point of the new set is out of bounds or infeasible", All(T.inb2) /\ All(T.feas2))
  \cup Flag("C09", "a point of the new set has a wrong objective", All(T.vok2))
Judge ==
  /\ ph = "judge" /\ ph' = "end"
  /\ bad' = bad \cup (IF T.err THEN JudgeErr ELSE Judge8 \cup Judge9 \cup Judge9b)
  /\ PrintT(ToJson([done |-> T.id, bad |-> bad']))
  /\ UNCHANGED <<t, chosen, md>>
Next == Choose \/ Spread \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
