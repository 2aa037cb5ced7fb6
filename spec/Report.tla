------------------------------- MODULE Report -------------------------------
(* The printed report of a solution set as a sequence of statements, and the  *)
(* reader who gets the set back from it.                                      *)
(* A set: [sols |-> seq of [obj, par, cons |-> seq of [val, sat]], best |-> objective], desc |-> descriptions, shown |-> BOOLEAN] *)
EXTENDS Integers, Sequences
Total == 1
Best == 2
Sol == 3
Obj == 4
Par == 5
Block == 6
Con == 7
DescOf(s, j) == IF j <= Len(s.desc) THEN s.desc[j] ELSE 0
ConLine(s, i, j) == <<Con, j, DescOf(s, j), s.sols[i].cons[j].val, IF s.sols[i].cons[j].sat THEN 1 ELSE 0>>
RECURSIVE Cons(_, _, _)
Cons(s, i, j) == IF j > Len(s.sols[i].cons) THEN <<>> ELSE <<ConLine(s, i, j)>> \o Cons(s, i, j + 1)
OneSol(s, i) == <<<<Sol, i>>, <<Obj, s.sols[i].obj>>, <<Par, s.sols[i].par>>>>
                \o (IF s.shown /\ s.sols[i].cons # <<>> THEN <<<<Block>>>> \o Cons(s, i, 1) ELSE <<>>)
RECURSIVE Sols(_, _)
Sols(s, i) == IF i > Len(s.sols) THEN <<>> ELSE OneSol(s, i) \o Sols(s, i + 1)
Write(s) == <<<<Total, Len(s.sols)>>>> \o (IF s.sols = <<>> THEN <<>> ELSE <<<<Best, s.best>>>>) \o Sols(s, 1)
\* the reader: folds the statements into what they say
RECURSIVE ReadFrom(_, _, _)
ReadFrom(d, k, acc) ==
  IF k > Len(d) THEN acc
  ELSE LET x == d[k]  n == Len(acc.sols) IN
       ReadFrom(d, k + 1,
         CASE x[1] = Total -> [acc EXCEPT !.total = x[2]]
           [] x[1] = Best -> [acc EXCEPT !.best = x[2]]
           [] x[1] = Sol -> [acc EXCEPT !.sols = Append(@, [obj |-> 0, par |-> 0, cons |-> <<>>]), !.order = @ /\ x[2] = n + 1]
           [] x[1] = Obj -> [acc EXCEPT !.sols[n].obj = x[2]]
           [] x[1] = Par -> [acc EXCEPT !.sols[n].par = x[2]]
           [] x[1] = Con -> [acc EXCEPT !.sols[n].cons = Append(@, [val |-> x[4], sat |-> x[5] = 1]),
                                        !.order = @ /\ x[2] = Len(acc.sols[n].cons) + 1]
           [] OTHER -> acc)
Read(d) == ReadFrom(d, 1, [total |-> 0, best |-> 0, sols |-> <<>>, order |-> TRUE])
=============================================================================
