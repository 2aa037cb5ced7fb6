---- MODULE MCSc ----
EXTENDS MCScatter
GridV == {0, 4, 8, 12, 16}
InfV == {{}, {0}, {8, 9}, {3, 4, 5, 6}}
InfNone == {{}}
====
