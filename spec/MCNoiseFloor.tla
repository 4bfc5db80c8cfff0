--------------------------- MODULE MCNoiseFloor ---------------------------
(* Preparing two small spectrograms in place, step by step as the            *)
(* implementation does it, against module NoiseFloor (1 unit per dB).        *)
EXTENDS NoiseFloor, TLC
CONSTANTS VALUES, SHAPES, Legacy
Few == {-100, -40, 30}
Some == {-100, -46, 0, 50}
Shapes == {<<1, 1, 1>>, <<2, 1, 1>>, <<2, 2, 1>>, <<2, 1, 2>>, <<2, 2, 2>>, <<1, 3, 2>>}     \* bands, frames of both
Small == {<<1, 1, 1>>, <<2, 1, 1>>, <<2, 2, 1>>, <<2, 1, 2>>, <<1, 3, 3>>}

VARIABLES r0, d0, r, d, phase, k, base
vars == <<r0, d0, r, d, phase, k, base>>
Matrix(b, n) == [1..b -> [1..n -> VALUES]]
Init == /\ \E s \in SHAPES : r0 \in Matrix(s[1], s[2]) /\ d0 \in Matrix(s[1], s[3])
        /\ r = r0 /\ d = d0 /\ phase = "raise" /\ k = 1 /\ base = 0
Map(m, F(_)) == [b \in 1..Bands(m) |-> [j \in 1..FramesIn(m) |-> F(m[b][j])]]
RaiseAll == /\ phase = "raise" /\ r' = Map(r, LAMBDA x : MaxF(x, -45)) /\ d' = Map(d, LAMBDA x : MaxF(x, -45))
            /\ phase' = "frames" /\ UNCHANGED <<r0, d0, k, base>>
LastFrame == IF "last" \in Legacy THEN Common(r, d) - 1 ELSE Common(r, d)
RaiseFrame ==
  /\ phase = "frames" /\ k <= LastFrame
  /\ LET top == IF "oneside" \in Legacy THEN Peak(r, k) ELSE MaxF(Peak(r, k), Peak(d, k))
         up(m) == [b \in 1..Bands(m) |-> [m[b] EXCEPT ![k] = MaxF(@, top - 45)]]
     IN r' = up(r) /\ d' = up(d)
  /\ k' = k + 1 /\ UNCHANGED <<r0, d0, phase, base>>
FramesDone == phase = "frames" /\ k > LastFrame /\ phase' = "min" /\ UNCHANGED <<r0, d0, r, d, k, base>>
Low(m) == MinUpTo([b \in 1..Bands(m) |-> MinUpTo(m[b], FramesIn(m))], Bands(m))
Lowest == /\ phase = "min" /\ base' = (IF "refmin" \in Legacy THEN Low(r) ELSE -MaxF(-Low(r), -Low(d)))
          /\ phase' = "subtract" /\ UNCHANGED <<r0, d0, r, d, k>>
Subtract == /\ phase = "subtract" /\ r' = Map(r, LAMBDA x : x - base) /\ d' = Map(d, LAMBDA x : x - base)
            /\ phase' = "done" /\ UNCHANGED <<r0, d0, k, base>>
Next == RaiseAll \/ RaiseFrame \/ FramesDone \/ Lowest \/ Subtract
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == phase = "done"
Ends == <>Done
AsDefined == Done => [r |-> r, d |-> d] = Floored(r0, d0, 1)
Symmetric == Done => [r |-> d, d |-> r] = Floored(d0, r0, 1)
CommonMinimum == Done => Low(r) >= 0 /\ Low(d) >= 0 /\ (Low(r) = 0 \/ Low(d) = 0)
\* the floor of a frame: absolute, and relative where both have the frame
FloorAt(j) == IF j <= Common(r0, d0) THEN MaxF(-45, MaxF(Peak(r0, j), Peak(d0, j)) - 45) ELSE -45
\* values above their floor keep their differences, the others meet at the floor
Differences == Done =>
  \A m0 \in {<<r0, r>>, <<d0, d>>}, n0 \in {<<r0, r>>, <<d0, d>>} :
    \A b, c \in 1..Bands(r0) : \A i \in 1..FramesIn(m0[1]), j \in 1..FramesIn(n0[1]) :
      LET x == m0[1][b][i] y == n0[1][c][j] IN
      /\ x >= FloorAt(i) /\ y >= FloorAt(j) => m0[2][b][i] - n0[2][c][j] = x - y
      /\ x < FloorAt(i) /\ y = FloorAt(i) => m0[2][b][i] = n0[2][c][j]
\* nothing is lowered against anything else, within 45 dB below the joint peak of a frame nothing changes
Bounded == Done =>
  \A b \in 1..Bands(r0) : \A i \in 1..Common(r0, d0) :
    LET top == MaxF(Peak(r, i), Peak(d, i)) IN top - r[b][i] <= 45 /\ top - d[b][i] <= 45
=============================================================================
