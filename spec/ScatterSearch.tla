--------------------------- MODULE ScatterSearch ---------------------------
(***************************************************************************)
(* Stage 1: seeding, farthest-first diversification, combination of the    *)
(* leading points and update of the reference set. Pure operators shared   *)
(* by the exhaustive model (MCScatter) and the trace specification         *)
(* (TraceScatter). Objectives are ranks: an undefined objective (NaN) has  *)
(* the rank NoVal, above every defined one.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NoVal == 1000000
Inf == 2000000000

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
Isqrt(n) == CHOOSE r \in 0..n : r * r <= n /\ (r + 1) * (r + 1) > n
\* how many leading points are combined
Leading(n) == Min(Max(2, Isqrt(n)), n)
Pairs(k) == { p \in (1..k) \X (1..k) : p[1] < p[2] }
PairCount(k) == (k * (k - 1)) \div 2

(* ---- seeding and diversification ---- *)
\* Feasible candidates collected: a first batch, and further batches while they are too few
RECURSIVE Collect(_, _, _, _)
Collect(nf, pop, i, have) ==
  IF i > Len(nf) THEN have
  ELSE IF i > 1 /\ have >= pop THEN have
  ELSE Collect(nf, pop, i + 1, have + nf[i])
Collected(nf, pop) == Collect(nf, pop, 1, 0)
Insufficient(nf, nreq, pop) ==
  LET c == Collected(nf, pop) IN c = 0 \/ nreq + c < pop
Size0(nreq, pop) == Max(nreq, pop)
\* The candidates farthest from the reference set; md: distance to the nearest reference point
Farthest(md, cands) == { c \in cands : \A e \in cands : md[e] <= md[c] }

(* ---- combination ---- *)
\* ex: explanations <<pair index, slot>> of each trial; slots 1..4 are the fixed weights, 5 a perturbation
Explained(exs, k) ==
  /\ Len(exs) = 6 * PairCount(k)
  /\ \A i \in 1..Len(exs) : exs[i] # {}
  /\ \A p \in 1..PairCount(k) :
       /\ \A s \in 1..4 : \E i \in 1..Len(exs) : <<p, s>> \in exs[i]
       /\ Cardinality({ i \in 1..Len(exs) : \E s \in 1..5 : <<p, s>> \in exs[i] }) >= 6
       /\ Cardinality({ i \in 1..Len(exs) : <<p, 5>> \in exs[i] }) >= 2

(* ---- update ---- *)
\* Whether a trial may be evaluated: feasible and farther from the five leading
\* points than the threshold (equal ranks: the two are closer than rounding)
MayEvaluate(x, thr) == x.f /\ x.md >= thr
MustEvaluate(x, thr) == x.f /\ x.md > thr
Improves(v, worst) == v < worst
\* old, new: sequences of entries, entering: sequence of entries, as sets of ids; v: id -> rank
KeepsBest(old, entering, new, v, pop) ==
  /\ new \subseteq (old \cup entering)
  /\ IF entering = {} THEN new = old
     ELSE /\ Cardinality(new) = pop
          /\ \A a \in new : \A b \in (old \cup entering) \ new : v[a] <= v[b]
=============================================================================
