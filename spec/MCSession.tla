----------------------------- MODULE MCSession -----------------------------
EXTENDS Session
Kinds == {[ra |-> 8, rd |-> 8, na |-> 2, nd |-> 1], [ra |-> 16, rd |-> 16, na |-> 1, nd |-> 2],
          [ra |-> 8, rd |-> 16, na |-> 1, nd |-> 1], [ra |-> 16, rd |-> 16, na |-> 1, nd |-> 0], [ra |-> 8, rd |-> 8, na |-> 0, nd |-> 1]}
\* reachability: every outcome occurs, and jobs overlap
Overlap == ~(Running = Cardinality(Managers))
=============================================================================
