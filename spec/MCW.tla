---- MODULE MCW ----
EXTENDS MCWorkers
\* objective, position and the optimum reached
TS == { [p |-> a, v |-> b, o |-> [p |-> c, v |-> d]] : a \in {0, 4}, b \in {1, 3}, c \in {0, 4}, d \in {0, 1} }
====
