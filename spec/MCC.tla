---- MODULE MCC ----
EXTENDS MCCodec
ShapesAll == [solver : 1..6, ls : 1..2, l1 : BOOLEAN, set : -1..2, nref : {0, 1, 3}, dim : {1, 3}, ndist : {0, 2},
              target : BOOLEAN, batch : BOOLEAN, ts : {0, 2}]
ShapesMC == {s \in ShapesAll : (s.l1 => s.solver = 1) /\ s.dim = 1 /\ s.nref < 3 /\ (s.target = s.batch)}
ShapesQuick == {s \in ShapesMC : s.ts = 0 /\ s.set \in {-1, 1} /\ s.nref = 1 /\ s.ndist = 0 /\ (s.ls = 1 => s.target)}
ShapesGen == {s \in ShapesAll : (s.l1 => s.solver = 1)}
DamageV == {-1, 0, 1, 2, 9}
====
