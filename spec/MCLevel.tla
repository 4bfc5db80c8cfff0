------------------------------ MODULE MCLevel ------------------------------
(* Removing the delay and matching the level of a degraded signal and of the *)
(* same signal at another playback level, side by side.  Levels are squared  *)
(* (energies), so that everything stays rational.                            *)
EXTENDS Delay, TLC
CONSTANTS VALUES, LENS, GAINS, Legacy
Signs == {-1, 0, 1}

VARIABLES ref, deg, gain,   \* the pair, and the level of its second version
          side,             \* 1: as given, 2: the other level
          phase, i, er, ed, out,
          used              \* the degraded signal without its delay
vars == <<ref, deg, gain, side, phase, i, er, ed, out, used>>
Signals == UNION {[1..n -> VALUES] : n \in LENS}
Init == /\ ref \in Signals /\ deg \in Signals /\ gain \in GAINS
        /\ side = 1 /\ phase = "align" /\ i = 1 /\ er = 0 /\ ed = 0 /\ out = <<>> /\ used = [lag |-> 0, deg |-> <<>>]
Input == IF side = 1 THEN deg ELSE [k \in 1..Len(deg) |-> gain * deg[k]]
\* the two lags are among the best of each version; ties are broken alike (first best lag)
FirstBest(a, b) == CHOOSE l \in BestLags(a, b) : \A m \in BestLags(a, b) : l <= m
Use == used
Align == /\ phase = "align" /\ phase' = "measure" /\ i' = 1 /\ er' = 0 /\ ed' = 0 /\ used' = AlignWith(ref, Input, FirstBest(ref, Input))
         /\ UNCHANGED <<ref, deg, gain, side, out>>
Gate(x) == IF "gate" \in Legacy /\ AbsD(x) < 2 THEN 0 ELSE x
Measure == /\ phase = "measure" /\ i <= MaxD(Len(ref), Len(Use.deg))
           /\ er' = er + (IF i <= Len(ref) THEN ref[i] * ref[i] ELSE 0)
           /\ ed' = ed + (IF i <= Len(Use.deg) THEN Gate(Use.deg[i]) * Gate(Use.deg[i]) ELSE 0)
           /\ i' = i + 1 /\ UNCHANGED <<ref, deg, gain, side, phase, out, used>>
Scale == /\ phase = "measure" /\ i > MaxD(Len(ref), Len(Use.deg))
         \* squared factor num / den, applied to the squared samples
         /\ out' = Append(out, IF ed = 0 /\ "silent" \notin Legacy THEN [num |-> 1, den |-> 1, lag |-> Use.lag, x |-> Use.deg]
                               ELSE [num |-> er * (IF "sums" \in Legacy THEN 1 ELSE Len(Use.deg)), den |-> ed * (IF "sums" \in Legacy THEN 1 ELSE Len(ref)), lag |-> Use.lag, x |-> Use.deg])
         /\ (IF side = 1 THEN side' = 2 /\ phase' = "align" ELSE side' = 2 /\ phase' = "done")
         /\ UNCHANGED <<ref, deg, gain, i, er, ed, used>>
Next == Align \/ Measure \/ Scale
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == phase = "done"
Ends == <>Done
Finite == \A k \in 1..Len(out) : out[k].den # 0
SameLag == Done => out[1].lag = out[2].lag
\* equal mean square: energy of the scaled signal over its length = that of the reference
E(s) == SumD([k \in 1..Len(s) |-> s[k] * s[k]])
LevelMatches == \A k \in 1..Len(out) : E(out[k].x) > 0 => out[k].num * E(out[k].x) * Len(ref) = out[k].den * E(ref) * Len(out[k].x)
\* the second version comes out the same (squares and signs)
GainVanishes == Done =>
  \A k \in 1..Len(out[1].x) :
    LET x == out[1].x[k] y == out[2].x[k] IN
    /\ (x > 0) = (y > 0) /\ (x < 0) = (y < 0)
    /\ out[1].num * x * x * out[2].den = out[2].num * y * y * out[1].den
SilenceStays == Done /\ (\A k \in 1..Len(deg) : deg[k] = 0) => \A k \in 1..Len(out[1].x) : out[1].x[k] = 0 /\ out[1].num = out[1].den
=============================================================================
