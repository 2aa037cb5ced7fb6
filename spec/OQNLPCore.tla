----------------------------- MODULE OQNLPCore -----------------------------
(***************************************************************************)
(* The Stage 2 state machine of OQNLP.                                     *)
(*                                                                         *)
(* State of a run (record st):                                             *)
(*   thr   merit threshold                                                 *)
(*   unch  rejected trials since the last relaxation                       *)
(*   set   the solution set, a sequence of local optima; set[1] founded it *)
(*   dist  every local optimum found so far (distance-filter history)      *)
(*                                                                         *)
(* The module has no variables: it is instantiated                         *)
(*   - by the exhaustive models with exact integer arithmetic, and         *)
(*   - by the trace specifications with tables computed from the recorded  *)
(*     floating-point numbers by the documented formulas.                  *)
(*                                                                         *)
(* Relations return the SET of truth values the documentation allows:      *)
(* {TRUE} or {FALSE} when decided, BOOLEAN when two numbers are so close   *)
(* that rounding may decide either way (only in traces).                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS
  Adm(_, _),      \* Adm(v, t): objective value v is at or below threshold t
  Far(_, _),      \* Far(p, s): trial point p is farther than the distance factor from optimum s
  Better(_, _),   \* Better(s, f): optimum s is better than f by more than the tolerance
  Equiv(_, _),    \* Equiv(s, f): objectives of s and f are within tolerance
  Sep(_, _),      \* Sep(s, m): optima s and m are at least the distance factor apart
  InB(_),         \* InB(s): optimum s lies within the variable bounds (plain BOOLEAN)
  AtTarget(_),    \* AtTarget(s): the objective of s is at or below the target (plain BOOLEAN)
  Val(_),         \* Val(s): objective value of optimum s
  Relax(_),       \* Relax(t): t + threshold_factor * (1 + |t|)
  TrialVal(_),    \* TrialVal(x): objective of trial x
  Outcome(_),     \* Outcome(x): the local optimum a local search from trial x returns
  Excl,           \* out-of-bounds optima are excluded
  Wait            \* wait cycle

\* Conjunction and disjunction of allowed truth values
Conj(A, B) == { a /\ b : a \in A, b \in B }
ConjAll(F, S) ==
  IF \E x \in S : F[x] = {FALSE} THEN {FALSE}
  ELSE IF \A x \in S : F[x] = {TRUE} THEN {TRUE}
  ELSE BOOLEAN

Must(A) == A = {TRUE}
May(A) == TRUE \in A

Range(s) == { s[i] : i \in 1..Len(s) }

Eligible(s) == ~Excl \/ InB(s)

----------------------------------------------------------------------------
(* The filters: may / must a local search start from trial x in state st? *)
Gate(st, x) ==
  Conj(Adm(TrialVal(x), st.thr),
       ConjAll([s \in Range(st.dist) |-> Far(x, s)], Range(st.dist)))

(* A rejected trial *)
Reject(st) ==
  IF st.unch + 1 >= Wait
  THEN [st EXCEPT !.unch = 0, !.thr = Relax(st.thr)]
  ELSE [st EXCEPT !.unch = @ + 1]

(* A local optimum s has been found: the states that may result *)
Process(st, s) ==
  LET st1 == [st EXCEPT !.dist = Append(@, s)]
  IN  IF ~Eligible(s) THEN {st1}
      ELSE IF st.set = <<>> THEN {[st1 EXCEPT !.set = <<s>>, !.thr = Val(s)]}
      ELSE LET f == st.set[1]
               replaced == [st1 EXCEPT !.set = <<s>>, !.thr = Val(s)]
               added == [st1 EXCEPT !.set = Append(@, s)]
               distinct == ConjAll([m \in Range(st.set) |-> Sep(s, m)], Range(st.set))
               join == Conj(Equiv(s, f), distinct)
           IN  (IF May(Better(s, f)) THEN {replaced} ELSE {})
               \cup (IF FALSE \in Better(s, f)
                     THEN (IF May(join) THEN {added} ELSE {})
                          \cup (IF FALSE \in join THEN {st1} ELSE {})
                     ELSE {})

(* A local search from trial x *)
Start(st, x) == Process([st EXCEPT !.thr = TrialVal(x)], Outcome(x))

(* Best member: any member such that no other is strictly smaller is "the best";
   the target is reached when some eligible member is at or below it. *)
TargetReached(st) == \E m \in Range(st.set) : Eligible(m) /\ AtTarget(m)

----------------------------------------------------------------------------
(* One trial, sequentially *)
TrialStep(st, x, started) == IF started THEN Start(st, x) ELSE {Reject(st)}

RECURSIVE RejectN(_, _)
RejectN(st, n) == IF n = 0 THEN st ELSE RejectN(Reject(st), n - 1)

(* Apply the optima of the started trials xs in order. When the target is
   reached the remaining ones may be ignored. *)
RECURSIVE StartAll(_, _)
StartAll(st, xs) ==
  IF xs = <<>> THEN {st}
  ELSE UNION { IF TargetReached(q) THEN {q} \cup StartAll(q, Tail(xs)) ELSE StartAll(q, Tail(xs))
               : q \in Start(st, Head(xs)) }

(* Which sub-sequences of trials may be admitted in state st *)
StartedOK(st, xs, started) ==
  \A i \in 1..Len(xs) : (xs[i] \in Range(started)) \in Gate(st, xs[i])

(* A batch: filters against the state before it, rejections first, then the optima *)
Batch(st, xs, started) == StartAll(RejectN(st, Len(xs) - Len(started)), started)

----------------------------------------------------------------------------
(* State predicates: the listed properties *)

\* C01: some member is no worse, beyond tolerance, than every eligible optimum reached
BestKept(set, reached) ==
  \/ set = <<>> /\ \A s \in reached : ~Eligible(s)
  \/ \E m \in Range(set) : \A s \in reached : Eligible(s) => FALSE \in Better(s, m)

\* C02: equivalent to the founder, pairwise separated, nothing invented
SetEquivalent(set) == \A i \in 2..Len(set) : May(Equiv(set[i], set[1]))
SetSeparated(set) == \A i, j \in 1..Len(set) : i < j => May(Sep(set[j], set[i]))
SetGenuine(set, reached) == Range(set) \subseteq reached
\* every optimum reached since the founder that is equivalent and separated is a member
SetComplete(set, since) ==
  set # <<>> =>
    \A s \in since :
      \/ s \in Range(set)
      \/ ~Eligible(s)
      \/ FALSE \in Equiv(s, set[1])
      \/ \E m \in Range(set) : FALSE \in Sep(s, m)

\* C07
OnlyInBounds(set) == Excl => \A s \in Range(set) : InB(s)
=============================================================================
