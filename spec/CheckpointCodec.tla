-------------------------- MODULE CheckpointCodec --------------------------
(***************************************************************************)
(* The self-delimiting encoding of a checkpoint, over abstract tokens.      *)
(* A schema is a scalar, an option, a sequence, a record or a tagged union; *)
(* Dec is total: it returns a value and the position after it, or an error. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
V == [t |-> "v"]
Opt(s) == [t |-> "opt", s |-> s]
Sq(s) == [t |-> "seq", s |-> s]
Rec(ss) == [t |-> "rec", ss |-> ss]
Alt(ss) == [t |-> "alt", ss |-> ss]

RECURSIVE Enc(_, _), EncAll(_, _, _), EncRec(_, _, _)
EncAll(s, xs, i) == IF i > Len(xs) THEN <<>> ELSE Enc(s, xs[i]) \o EncAll(s, xs, i + 1)
EncRec(ss, xs, i) == IF i > Len(ss) THEN <<>> ELSE Enc(ss[i], xs[i]) \o EncRec(ss, xs, i + 1)
Enc(s, x) == CASE s.t = "v" -> <<x>>
               [] s.t = "opt" -> IF x = <<>> THEN <<0>> ELSE <<1>> \o Enc(s.s, x[1])
               [] s.t = "seq" -> <<Len(x)>> \o EncAll(s.s, x, 1)
               [] s.t = "rec" -> EncRec(s.ss, x, 1)
               [] s.t = "alt" -> <<x[1]>> \o Enc(s.ss[x[1]], x[2])

Err == [ok |-> FALSE, x |-> <<>>, p |-> 0]
Ok(x, p) == [ok |-> TRUE, x |-> x, p |-> p]
RECURSIVE Dec(_, _, _), DecN(_, _, _, _), DecRec(_, _, _, _)
DecN(s, w, p, n) ==
  IF n = 0 THEN Ok(<<>>, p)
  ELSE LET a == Dec(s, w, p) IN
       IF ~a.ok THEN Err
       ELSE LET r == DecN(s, w, a.p, n - 1) IN IF ~r.ok THEN Err ELSE Ok(<<a.x>> \o r.x, r.p)
DecRec(ss, w, p, i) ==
  IF i > Len(ss) THEN Ok(<<>>, p)
  ELSE LET a == Dec(ss[i], w, p) IN
       IF ~a.ok THEN Err
       ELSE LET r == DecRec(ss, w, a.p, i + 1) IN IF ~r.ok THEN Err ELSE Ok(<<a.x>> \o r.x, r.p)
Dec(s, w, p) ==
  CASE s.t = "rec" -> DecRec(s.ss, w, p, 1)
    [] p > Len(w) -> Err
    [] s.t = "v" -> Ok(w[p], p + 1)
    [] s.t = "opt" -> IF w[p] = 0 THEN Ok(<<>>, p + 1)
                      ELSE IF w[p] # 1 THEN Err
                      ELSE LET a == Dec(s.s, w, p + 1) IN IF a.ok THEN Ok(<<a.x>>, a.p) ELSE Err
    \* a length that cannot be satisfied is an error before anything is allocated for it
    [] s.t = "seq" -> IF w[p] < 0 \/ w[p] > Len(w) - p THEN Err ELSE DecN(s.s, w, p + 1, w[p])
    [] s.t = "alt" -> IF w[p] \notin 1..Len(s.ss) THEN Err
                      ELSE LET a == Dec(s.ss[w[p]], w, p + 1) IN IF a.ok THEN Ok(<<w[p], a.x>>, a.p) ELSE Err
Decode(s, w) == Dec(s, w, 1)

\* ---- the checkpoint
Point == Sq(V)
Solution == Rec(<<Point, V>>)
LineSearch == Alt(<<Rec(<<V, V, V, Point>>), Rec(<<V, V, V, V, V, V, Point>>)>>)
Solver == Alt(<<Rec(<<V, V, V, V, Opt(V), LineSearch>>),     \* L-BFGS
                Rec(<<V, V, V, V, V, V, V>>),                \* Nelder-Mead
                Rec(<<V, LineSearch>>),                      \* steepest descent
                Rec(<<Alt(<<Rec(<<>>), Rec(<<>>)>>), V, V, V, V>>),   \* trust region
                Rec(<<V, V, V, LineSearch>>),                \* Newton-CG
                Rec(<<V, V, V, V, V, Sq(V)>>)>>)             \* COBYLA
Params == Rec(<<V, V, V, V, V, V, Solver, V>>)
Checkpoint == Rec(<<Params, V, V, Opt(Sq(Solution)), Sq(Point), V, V, Sq(Solution), V, Opt(V), V, Opt(V), V, V, V, Sq(V)>>)
=============================================================================
