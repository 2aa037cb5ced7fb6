----------------------------- MODULE MCScatter -----------------------------
(***************************************************************************)
(* Exhaustive model of Stage 1 on a line: points are integers 0..W (a      *)
(* multiple of 16, initial points multiples of 4 so that every fixed       *)
(* combination is exact). Objective values are chosen when a point is      *)
(* first evaluated: every objective function is covered.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS W, Pops, Grid, MaxCustom, InfeasSets, Vals, ErrV, PertVals, Emit
VARIABLES ph, cfg, ref, left, md, val, trials, ent, i, seeds, init0
vars == <<ph, cfg, ref, left, md, val, trials, ent, i, seeds, init0>>
S == INSTANCE ScatterSearch

Clamp(x) == IF x < 0 THEN 0 ELSE IF x > W THEN W ELSE x
Sq(x) == x * x
Dist(a, b) == Sq(a - b)
Range(s) == { s[j] : j \in 1..Len(s) }
MinD(c, s) == IF s = <<>> THEN S!Inf
              ELSE CHOOSE d \in { Dist(c, s[j]) : j \in 1..Len(s) } : \A j \in 1..Len(s) : d <= Dist(c, s[j])
Feas(x) == x \notin cfg.infeas
RECURSIVE SetToSeqs(_)
SetToSeqs(A) == IF A = {} THEN {<<>>} ELSE UNION { { <<a>> \o s : s \in SetToSeqs(A \ {a}) } : a \in A }
Pick1(A) == CHOOSE s \in SetToSeqs(A) : TRUE

Init ==
  /\ cfg \in [pop : Pops, infeas : InfeasSets, custom : { c \in SUBSET Grid : Cardinality(c) <= MaxCustom }]
  /\ seeds = SelectSeq(<<0, W, W \div 2>> \o Pick1(cfg.custom), LAMBDA x : x \notin cfg.infeas)
  /\ ref = seeds
  /\ left \in { c \in SUBSET (Grid \ cfg.infeas) : Cardinality(c) <= cfg.pop }
  /\ Len(seeds) + Cardinality(left) >= cfg.pop /\ (cfg.infeas # {} => left # {})
  /\ md = [ c \in left |-> MinD(c, seeds) ]
  /\ ph = "diversify" /\ val = <<>> /\ trials = <<>> /\ ent = <<>> /\ i = 0 /\ init0 = <<>>

Diversify ==
  /\ ph = "diversify" /\ Len(ref) < cfg.pop
  /\ \E c \in S!Farthest(md, left) :
       /\ ref' = Append(ref, c)
       /\ left' = left \ {c}
       /\ md' = [ e \in left' |-> S!Min(md[e], Dist(e, c)) ]
  /\ UNCHANGED <<ph, cfg, val, trials, ent, i, seeds, init0>>

\* Evaluate and sort. Entries are [p, v, n]; n tells duplicates apart.
Sorted(s) == \A a, b \in 1..Len(s) : a < b => s[a].v <= s[b].v
Evaluate ==
  /\ ph = "diversify" /\ Len(ref) >= cfg.pop
  /\ IF Emit     \* simulation: one objective function at random
     THEN LET f == [ x \in Range(ref) |-> RandomElement(Vals) ]
          IN /\ val' = f
             /\ init0' = SortSeq([ j \in 1..Len(ref) |-> [p |-> ref[j], v |-> val'[ref[j]], n |-> j] ],
                                 LAMBDA a, b : a.v < b.v)
     ELSE \E f \in [ Range(ref) -> Vals ] :
       /\ val' = f
       /\ LET E == { [p |-> ref[j], v |-> f[ref[j]], n |-> j] : j \in 1..Len(ref) }
          IN \E s \in SetToSeqs(E) : Sorted(s) /\ init0' = s
  /\ ph' = "combine" /\ left' = {} /\ md' = <<>>
  /\ UNCHANGED <<cfg, ref, trials, ent, i, seeds>>

Comb(a, b) == << Clamp((a + 3 * b) \div 4), Clamp((a + b) \div 2), Clamp((3 * a + b) \div 4), Clamp((5 * a - b) \div 4) >>
RECURSIVE AllTrials(_, _)
AllTrials(ps, d) ==
  IF ps = <<>> THEN <<>>
  ELSE LET a == init0[ps[1][1]].p
           b == init0[ps[1][2]].p
           c == Comb(a, b)
       IN [ j \in 1..4 |-> [p |-> c[j], s |-> j] ] \o
          << [p |-> Clamp((a + b) \div 2 + d[1]), s |-> 5], [p |-> Clamp((a + b) \div 2 + d[2]), s |-> 5] >> \o
          AllTrials(Tail(ps), d)
Combine ==
  /\ ph = "combine"
  /\ \E d \in {<<-1, 1>>} :
       trials' = AllTrials(Pick1(S!Pairs(S!Leading(Len(init0)))), d)
  /\ ph' = "update" /\ i' = 1
  /\ UNCHANGED <<cfg, ref, left, md, val, ent, seeds, init0>>

\* ten times k times the squared distance against the sum over k consecutive leading points
SumD == LET k == S!Leading(Len(init0))
            F[j \in 0..k] == IF j = 0 THEN 0
                             ELSE F[j - 1] + Dist(init0[j].p, init0[(j % Len(init0)) + 1].p)
        IN F[k]
Diverse(x) == \A j \in 1..S!Min(5, Len(init0)) :
                 10 * S!Leading(Len(init0)) * Dist(x, init0[j].p) > SumD
Worst == init0[Len(init0)].v
Update ==
  /\ ph = "update" /\ i <= Len(trials)
  /\ LET x == trials[i]
         vs == IF x.p \in DOMAIN val THEN {val[x.p]}
               ELSE IF x.s = 5 THEN PertVals ELSE Vals \cup {ErrV}
     IN IF ~Feas(x.p) \/ ~Diverse(x.p) THEN UNCHANGED <<val, ent>>
        ELSE \E v \in vs :
               /\ val' = [ q \in DOMAIN val \cup {x.p} |-> IF q = x.p THEN v ELSE val[q] ]
               /\ ent' = IF v # ErrV /\ S!Improves(v, Worst)
                         THEN Append(ent, [p |-> x.p, v |-> v, n |-> 100 + i]) ELSE ent
  /\ i' = i + 1 /\ UNCHANGED <<ph, cfg, ref, left, md, trials, seeds, init0>>
Select ==
  /\ ph = "update" /\ i = Len(trials) + 1
  /\ LET A == Range(init0) \cup Range(ent)
     IN IF ent = <<>> THEN ref' = init0
        ELSE \E N \in { M \in SUBSET A : Cardinality(M) = cfg.pop } :
               /\ \A a \in N : \A b \in A \ N : a.v <= b.v
               /\ ref' = CHOOSE s \in SetToSeqs(N) : Sorted(s)
  /\ ph' = "done" /\ UNCHANGED <<cfg, left, md, val, trials, ent, i, seeds, init0>>
Finish ==
  /\ ph = "done" /\ Emit
  /\ PrintT(ToJson([cfg |-> cfg, init |-> init0, vals |-> { <<p, val[p]>> : p \in DOMAIN val }, new |-> ref, trials |-> trials]))
  /\ UNCHANGED vars
Next == Diversify \/ Evaluate \/ Combine \/ Update \/ Select \/ Finish
Spec == Init /\ [][Next]_vars

(* ---- the properties ---- *)
PtsOf(s) == IF ph \in {"diversify", "combine", "update"} THEN Range(s) ELSE { e.p : e \in Range(s) }
InBoundsFeasible == \A x \in PtsOf(ref) : x \in 0..W /\ x \notin cfg.infeas
SeedsPresent == \A j \in 1..Len(seeds) : ph \in {"diversify", "combine", "update"} => ref[j] = seeds[j]
SizeExact == /\ init0 # <<>> => Len(init0) = S!Size0(Len(seeds), cfg.pop)
             /\ ph = "done" /\ ent # <<>> => Len(ref) = cfg.pop
MdExact == \A c \in DOMAIN md : md[c] = MinD(c, ref)
\* farthest-first spreads the points at least as well as any later choice would have
Spread == ph = "diversify" => \A j \in (Len(seeds) + 1)..Len(ref) :
            LET r == MinD(ref[j], SubSeq(ref, 1, j - 1))
            IN \A c \in left : MinD(c, SubSeq(ref, 1, j - 1)) <= r
BestKept == ph = "done" => ref[1].v <= init0[1].v /\ \A e \in Range(ent) : ref[1].v <= e.v
KeepsBest == ph = "done" =>
   LET A == Range(init0) \cup Range(ent)
       V == [ e \in A |-> e.v ]
   IN S!KeepsBest(Range(init0), Range(ent), Range(ref), V, cfg.pop)
Unchanged == ph = "done" /\ ent = <<>> => ref = init0
NeverWorse == ph = "done" => \A j \in 1..S!Min(Len(ref), Len(init0)) : ref[j].v <= init0[j].v
Shape == ph \in {"update", "done"} => Len(trials) = 6 * S!PairCount(S!Leading(Len(init0)))
=============================================================================
