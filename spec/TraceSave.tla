----------------------------- MODULE TraceSave -----------------------------
(***************************************************************************)
(* One real save, killed or disturbed at a chosen call: the recorded calls *)
(* are applied to the model directory and what the next process found is   *)
(* judged.                                                                 *)
(* trace: id, mgr [name, keep], iters, prior <<[f, id]>>, size (function   *)
(* from content id to bytes), new (id), newit, calls, out (killed, ok,     *)
(* err), load (id, "none" or "damaged") by the next process, ls <<[f, id]>>*)
(* again: what a further save and load of the next process gave            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT File
Traces == JsonDeserialize(File)
VARIABLES t, l, d, bad
vars == <<t, l, d, bad>>
T == Traces[t]
A == INSTANCE AtomicSave
S == INSTANCE CheckpointStore WITH Iters <- {T.iters[i] : i \in 1..Len(T.iters)}
Flag(why, cond) == IF cond THEN {} ELSE {<<"C15", why>>}
Prior == {T.prior[i].f : i \in 1..Len(T.prior)}
Pos(f) == CHOOSE i \in 1..Len(T.prior) : T.prior[i].f = f
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ bad = {}
        /\ d = [dir |-> [f \in Prior |-> Pos(f)],
                ino |-> [i \in 1..Len(T.prior) |-> [id |-> T.prior[i].id, n |-> T.size[T.prior[i].id]]]]
Latest(dd) == LET f == IF T.mgr.keep
                       THEN LET o == S!Own(T.mgr, dd.dir) IN IF o = {} THEN "?" ELSE S!FileName(T.mgr, S!Max(o))
                       ELSE S!FileName(T.mgr, 0)
              IN A!Look(dd, f, T.size)
Prev == LET d0 == [dir |-> [f \in Prior |-> Pos(f)],
                   ino |-> [i \in 1..Len(T.prior) |-> [id |-> T.prior[i].id, n |-> T.size[T.prior[i].id]]]]
        IN Latest(d0)
\* with keep_all a save of a lower iteration than an existing one is not the latest
NewIsLatest == ~T.mgr.keep \/ \A it \in S!Own(T.mgr, [f \in Prior |-> 0]) : it <= T.newit
Allowed(x) == x \in {Prev, T.new}
Calls == /\ l <= Len(T.calls)
         /\ d' = A!Apply(d, T.calls[l], T.new)
         /\ l' = l + 1 /\ t' = t /\ bad' = bad
\* does the model account for what is really there? (only then its intermediate states are used)
Consistent == /\ {T.ls[i].f : i \in 1..Len(T.ls)} = DOMAIN d.dir
              /\ \A i \in 1..Len(T.ls) : A!Look(d, T.ls[i].f, T.size) = T.ls[i].id
Fin == /\ l = Len(T.calls) + 1 /\ l' = l + 1 /\ t' = t /\ d' = d
       /\ bad' = bad
          \cup Flag("the latest checkpoint is lost or damaged", Allowed(T.load))
          \cup Flag("a save that reported success is not loaded", T.out # "ok" \/ (NewIsLatest => T.load = T.new))
          \cup Flag("a later save or its load fails after the interrupted one", T.again)
          \cup Flag("the model of the directory is left in an unrecoverable state", Consistent => Allowed(Latest(d)))
       /\ PrintT(ToJson([done |-> T.id, bad |-> bad', consistent |-> Consistent]))
Next == Calls \/ Fin
Spec == Init /\ [][Next]_vars
=============================================================================
