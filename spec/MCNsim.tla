------------------------------ MODULE MCNsim ------------------------------
(* The similarity of two small patches: the border is filled and the local   *)
(* sums are formed step by step as the implementation does it (copy, rows,   *)
(* columns, flattened convolution with the reversed kernel), against the     *)
(* definition with clamped indices; the index computed from it has the       *)
(* properties users rely on.                                                 *)
EXTENDS Nsim, TLC
CONSTANTS SHAPES,    \* set of <<bands, frames>>
          VALUES, MORE, MORECELLS, \* cell values (dB times SCALE)
          SCALE, Legacy

Shapes == {<<1, 1>>, <<1, 2>>, <<2, 1>>}
DeepShapes == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<1, 3>>, <<3, 1>>}
ValuesFor(s) == IF s[1] * s[2] <= MORECELLS THEN VALUES \union MORE ELSE VALUES
AbsI(x) == IF x < 0 THEN -x ELSE x

VARIABLES r, d, phase, pad, k, sums, map, back
vars == <<r, d, phase, pad, k, sums, map, back>>

NB(m) == Len(m)
NK(m) == Len(m[1])
Init ==
  /\ \E s \in SHAPES : \E a, b \in [1..s[1] -> [1..s[2] -> ValuesFor(s)]] : r = a /\ d = b
  /\ phase = "copy" /\ pad = <<>> /\ k = 1 /\ sums = <<>> /\ map = <<>> /\ back = <<>>

\* the border of the product of both patches (products occur in the covariance)
M == [i \in 1..NB(r) |-> [j \in 1..NK(r) |-> r[i][j] * 3 + d[i][j]]]
H == NB(r) + 2
Wd == NK(r) + 2
Copy == /\ phase = "copy" /\ phase' = "rows" /\ k' = 1
        /\ pad' = [i \in 1..H |-> [j \in 1..Wd |-> IF i > 1 /\ i < H /\ j > 1 /\ j < Wd THEN M[i - 1][j - 1] ELSE 0]]
        /\ UNCHANGED <<r, d, sums, map, back>>
\* first and last row, one column at a time
Rows == /\ phase = "rows" /\ k <= Wd
        /\ pad' = [pad EXCEPT ![1][k] = pad[2][k], ![H][k] = pad[H - 1][k]]
        /\ k' = k + 1 /\ UNCHANGED <<r, d, phase, sums, map, back>>
RowsDone == phase = "rows" /\ k > Wd /\ phase' = "cols" /\ k' = (IF "corners" \in Legacy THEN 2 ELSE 1) /\ UNCHANGED <<r, d, pad, sums, map, back>>
ColsEnd == IF "corners" \in Legacy THEN H - 1 ELSE H
Cols == /\ phase = "cols" /\ k <= ColsEnd
        /\ pad' = [pad EXCEPT ![k][1] = pad[k][2], ![k][Wd] = pad[k][Wd - 1]]
        /\ k' = k + 1 /\ UNCHANGED <<r, d, phase, sums, map, back>>
ColsDone == phase = "cols" /\ k > ColsEnd /\ phase' = "conv" /\ k' = 1 /\ UNCHANGED <<r, d, pad, sums, map, back>>
\* output cell k of the flattened result; the kernel is walked backwards
Kernel == <<1, 7, 1, 7, 50, 7, 1, 7, 1>>
Flat(i) == pad[1 + (i \div Wd)][1 + (i % Wd)]
Conv == /\ phase = "conv" /\ k <= NB(r) * NK(r)
        /\ LET row == (k - 1) \div NK(r) col == (k - 1) % NK(r)
               term(n) == LET fc == n \div 3 fr == n % 3 IN Flat((fr + row) * Wd + fc + col) * Kernel[9 - n]
           IN sums' = Append(sums, term(0) + term(1) + term(2) + term(3) + term(4) + term(5) + term(6) + term(7) + term(8))
        /\ k' = k + 1 /\ UNCHANGED <<r, d, phase, pad, map, back>>
ConvDone == phase = "conv" /\ k > NB(r) * NK(r) /\ phase' = "done" /\ k' = 1 /\ UNCHANGED <<r, d, pad, sums, map, back>>
Big == 1 + (MaxAbs(r) * MaxAbs(r) + MaxAbs(d) * MaxAbs(d)) \div (SCALE * SCALE)
At(x, y, b, c) == Cell(x, y, b, c, SCALE, Big)
Measure == /\ phase = "done" /\ map = <<>>
           /\ map' = [x \in {<<b, c>> : b \in 1..NB(r), c \in 1..NK(r)} |-> At(r, d, x[1], x[2])]
           /\ back' = [x \in {<<b, c>> : b \in 1..NB(r), c \in 1..NK(r)} |-> At(d, r, x[1], x[2])]
           /\ UNCHANGED <<r, d, phase, pad, k, sums>>
Measured == phase = "done" /\ map # <<>>
Next == Measure \/ Copy \/ Rows \/ RowsDone \/ Cols \/ ColsDone \/ Conv \/ ConvDone
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == phase = "done"
\* ---- the local sums are those of the definition ----
BorderReplicates == phase = "conv" =>
  \A i \in 1..H, j \in 1..Wd : pad[i][j] = M[Edge(i - 1, NB(r))][Edge(j - 1, NK(r))]
LocalSum(b, c) ==
  LET at(i, j) == M[Edge(i, NB(r))][Edge(j, NK(r))] IN
  1 * (at(b - 1, c - 1) + at(b - 1, c + 1) + at(b + 1, c - 1) + at(b + 1, c + 1))
  + 7 * (at(b - 1, c) + at(b + 1, c) + at(b, c - 1) + at(b, c + 1)) + 50 * at(b, c)
SumsAreLocal == Done => \A c \in 1..Len(sums) : sums[c] = LocalSum(1 + ((c - 1) \div NK(r)), 1 + ((c - 1) % NK(r)))

\* ---- the index ----
Unit == Shl(B(1), KN)
Tiny == Lit(0, <<0, 0, 1, 0, 0>>)          \* 1e-12
One1(v) == Near(v, Unit, Tiny)
Cells == {<<b, c>> : b \in 1..NB(r), c \in 1..NK(r)}
Index == Measured =>
  \A x \in Cells :
    LET v == map[x].mid IN
    /\ Leq(v, Add(Unit, Tiny))                                         \* at most 1
    /\ Leq(Neg(Add(Unit, Tiny)), v)                                    \* at least -1
    /\ Near(v, back[x].mid, Tiny)                                      \* symmetric
    /\ (r = d => One1(v))                                              \* identical patches score 1
    /\ Leq(map[x].lo, v) /\ Leq(v, map[x].hi)                          \* inside its own uncertainty
\* equal everywhere near a cell means similarity 1 there, whatever is elsewhere
Locality == Measured =>
  \A x \in Cells :
    (\A y \in Cells : AbsI(x[1] - y[1]) <= 1 /\ AbsI(x[2] - y[2]) <= 1 => r[y[1]][y[2]] = d[y[1]][y[2]])
      => One1(map[x].mid)
\* a patch scores 1 everywhere only against itself
OnlyItself == Measured =>
  ((\A x \in Cells : Near(map[x].mid, Unit, Lit(0, <<0, 0, 0, 100, 0>>))) => r = d)
Ends == <>Measured
=============================================================================
