-------------------------- MODULE CheckpointStore --------------------------
(***************************************************************************)
(* The checkpoint directory as a function from file names to contents, and *)
(* the operations of a manager m = [name, keep] on it. Iters is the finite *)
(* set of iteration numbers in play.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Iters
Pad(n) == LET s == ToString(n) IN IF Len(s) >= 6 THEN s ELSE SubSeq("000000", 1, 6 - Len(s)) \o s
FileName(m, it) == IF m.keep THEN m.name \o "_" \o Pad(it) \o ".bin" ELSE m.name \o ".bin"
None == [k |-> "none"]
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

Put(disk, f, c) == [x \in DOMAIN disk \cup {f} |-> IF x = f THEN c ELSE disk[x]]
Drop(disk, fs) == [x \in DOMAIN disk \ fs |-> disk[x]]

\* iterations of the checkpoints this manager has in the directory
Own(m, disk) == IF m.keep THEN {it \in Iters : FileName(m, it) \in DOMAIN disk} ELSE {}
Exists(m, disk) == IF m.keep THEN Own(m, disk) # {} ELSE FileName(m, 0) \in DOMAIN disk
Load(m, disk) == IF ~Exists(m, disk) THEN None
                 ELSE IF m.keep THEN disk[FileName(m, Max(Own(m, disk)))] ELSE disk[FileName(m, 0)]
Save(m, disk, it, tag) == Put(disk, FileName(m, it), [k |-> "ck", tag |-> tag, it |-> it])
\* the n highest iterations stay; nothing happens for n = 0 or with a single file
Cleaned(m, disk, n) ==
  IF ~m.keep \/ n = 0 THEN {}
  ELSE {it \in Own(m, disk) : Cardinality({j \in Own(m, disk) : j > it}) >= n}
Clean(m, disk, n) == Drop(disk, {FileName(m, it) : it \in Cleaned(m, disk, n)})
=============================================================================
