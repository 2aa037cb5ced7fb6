---- MODULE MCT ----
EXTENDS MCStore
MgrsV == <<[name |-> "run", keep |-> TRUE], [name |-> "run", keep |-> FALSE], [name |-> "run_2", keep |-> TRUE]>>
MgrsB == <<[name |-> "a", keep |-> TRUE], [name |-> "a_b", keep |-> FALSE], [name |-> "a_7", keep |-> FALSE], [name |-> "a.b", keep |-> TRUE]>>
ForeignV == {"run_5.bin", "run_000001.txt"}
====
