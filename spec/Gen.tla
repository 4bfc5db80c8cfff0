-------------------------------- MODULE Gen --------------------------------
(* Writes the cases that decide property GEN_PROP to GEN_OUT.                *)
EXTENDS Families

Effort == atoi(IOEnv.GEN_EFFORT)                      \* percent of the plan
Cases == FoldLeft(LAMBDA a, f : a \o Batch(f[1], (f[2] * Effort + 99) \div 100), <<>>, Plan(IOEnv.GEN_PROP))
Numbered == LET c == Cases IN [i \in 1..Len(c) |-> c[i] @@ [id |-> i]]
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Numbered)
=============================================================================
