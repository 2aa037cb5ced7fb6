----------------------------- MODULE AtomicSave -----------------------------
(***************************************************************************)
(* A checkpoint directory at the level of file-system calls: names point   *)
(* to files, a file has a content. A content is [id, n]: the first n bytes *)
(* of complete content id (complete iff n = Size(id)).                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* state: [dir : name -> inode, ino : inode -> [id, n]]
Bind(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Unbind(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Fresh(d) == Cardinality(DOMAIN d.ino) + 1
\* call: [c, f, g, n, how]; new: id of the content being written
Apply(d, call, new) ==
  CASE call.c = "open" ->
         IF call.how = "empty"
         THEN IF call.f \in DOMAIN d.dir
              THEN [d EXCEPT !.ino = Bind(@, d.dir[call.f], [id |-> new, n |-> 0])]
              ELSE [dir |-> Bind(d.dir, call.f, Fresh(d)), ino |-> Bind(d.ino, Fresh(d), [id |-> new, n |-> 0])]
         ELSE d
    [] call.c = "write" ->
         IF call.f \in DOMAIN d.dir
         THEN [d EXCEPT !.ino = Bind(@, d.dir[call.f], [@[d.dir[call.f]] EXCEPT !.n = @ + call.n])]
         ELSE d
    [] call.c = "trunc" ->
         IF call.f \in DOMAIN d.dir
         THEN [d EXCEPT !.ino = Bind(@, d.dir[call.f], [@[d.dir[call.f]] EXCEPT !.n = call.n])]
         ELSE d
    [] call.c = "rename" ->
         IF call.f \in DOMAIN d.dir
         THEN [d EXCEPT !.dir = Unbind(Bind(@, call.g, d.dir[call.f]), call.f)]
         ELSE d
    [] call.c = "link" ->
         IF call.f \in DOMAIN d.dir /\ call.g \notin DOMAIN d.dir
         THEN [d EXCEPT !.dir = Bind(@, call.g, d.dir[call.f])] ELSE d
    [] call.c = "unlink" -> [d EXCEPT !.dir = Unbind(@, call.f)]
    [] OTHER -> d
\* what a reader finds under a name: nothing, damaged, or the complete content id
Look(d, f, size) == IF f \notin DOMAIN d.dir THEN "none"
                    ELSE LET c == d.ino[d.dir[f]] IN IF c.n = size[c.id] THEN c.id ELSE "damaged"
=============================================================================
