----------------------------- MODULE TraceStore -----------------------------
(* Validates recorded operations on a real checkpoint directory.            *)
(* trace: id, mgrs <<[name, keep]>>, iters, ops <<op>>, each with the result *)
(* and (where taken) the listing of the directory after it.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT File
Traces == JsonDeserialize(File)
VARIABLES t, l, disk, gone, bad
vars == <<t, l, disk, gone, bad>>
T == Traces[t]
S == INSTANCE CheckpointStore WITH Iters <- {T.iters[i] : i \in 1..Len(T.iters)}
Flag(why, cond) == IF cond THEN {} ELSE {<<"C14", why>>}
M(op) == T.mgrs[op.m + 1]
Init == t \in 1..Len(Traces) /\ l = 1 /\ disk = [x \in {} |-> 0] /\ gone = TRUE /\ bad = {}
\* raw contents are identified by the operation that wrote them
Listing(o) == [x \in {o.ls[i].f : i \in 1..Len(o.ls)} |-> (CHOOSE i \in 1..Len(o.ls) : o.ls[i].f = x)]
SameDisk(o, d) == LET L == Listing(o) IN
   /\ DOMAIN L = DOMAIN d
   /\ \A x \in DOMAIN d : o.ls[L[x]].c = d[x]
Res(c) == IF c = S!None THEN [r |-> "err"] ELSE IF c.k = "ck" THEN [r |-> "ck", tag |-> c.tag, it |-> c.it] ELSE [r |-> "err"]
Do(op) ==
  CASE op.op = "mgr" -> /\ disk' = disk /\ gone' = FALSE
                        /\ bad' = bad \cup Flag("a manager cannot be created", op.res.r = "ok")
    [] op.op = "save" ->
         IF gone THEN /\ gone' = (op.res.r # "ok")
                      /\ disk' = IF op.res.r = "ok" THEN S!Save(M(op), disk, op.it, op.tag) ELSE disk
                      /\ bad' = bad
         ELSE /\ disk' = S!Save(M(op), disk, op.it, op.tag) /\ gone' = gone
              /\ bad' = bad \cup Flag("a save failed", op.res.r = "ok")
    [] op.op = "load" -> /\ UNCHANGED <<disk, gone>>
                         /\ bad' = bad \cup Flag("loading the latest checkpoint returned something else", op.res = Res(S!Load(M(op), disk)))
    [] op.op = "exists" -> /\ UNCHANGED <<disk, gone>>
                           /\ bad' = bad \cup Flag("existence is wrong", op.res.r = (IF S!Exists(M(op), disk) THEN "true" ELSE "false"))
    [] op.op = "clean" -> /\ disk' = S!Clean(M(op), disk, op.n) /\ gone' = gone
                          /\ bad' = bad \cup Flag("a cleanup failed", gone \/ op.res.r = "ok")
    [] op.op = "put" -> disk' = S!Put(disk, op.p, op.c) /\ gone' = FALSE /\ bad' = bad
    [] op.op = "rm" -> disk' = S!Drop(disk, {op.p}) /\ gone' = gone /\ bad' = bad
    [] op.op = "rmdir" -> disk' = [x \in {} |-> 0] /\ gone' = TRUE /\ bad' = bad
Fin == /\ l = Len(T.ops) + 1 /\ l' = l + 1 /\ UNCHANGED <<t, disk, gone, bad>>
       /\ PrintT(ToJson([done |-> T.id, bad |-> bad]))
\* a listing is an operation of its own, following the one it observes
StepLs == /\ l <= Len(T.ops) /\ T.ops[l].op = "ls"
          /\ bad' = bad \cup Flag("the directory holds other files or contents than it should", SameDisk(T.ops[l], disk))
          /\ t' = t /\ l' = l + 1 /\ UNCHANGED <<disk, gone>>
StepOp == l <= Len(T.ops) /\ T.ops[l].op # "ls" /\ Do(T.ops[l]) /\ t' = t /\ l' = l + 1
Next == StepOp \/ StepLs \/ Fin
Spec == Init /\ [][Next]_vars
=============================================================================
