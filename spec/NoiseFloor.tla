---------------------------- MODULE NoiseFloor ----------------------------
(* Preparation of two spectrograms, matrices [band][frame] in dB times U.    *)
EXTENDS Integers, Sequences

MaxF(a, b) == IF a > b THEN a ELSE b
RECURSIVE MaxUpTo(_, _), MinUpTo(_, _)
MaxUpTo(s, n) == IF n = 1 THEN s[1] ELSE MaxF(s[n], MaxUpTo(s, n - 1))
MinUpTo(s, n) == IF n = 1 THEN s[1] ELSE -MaxF(-s[n], -MinUpTo(s, n - 1))

Bands(m) == Len(m)
FramesIn(m) == Len(m[1])
Raised(m, f) == [b \in 1..Bands(m) |-> [k \in 1..FramesIn(m) |-> MaxF(m[b][k], f)]]
Peak(m, k) == MaxUpTo([b \in 1..Bands(m) |-> m[b][k]], Bands(m))
Common(r, d) == IF FramesIn(r) < FramesIn(d) THEN FramesIn(r) ELSE FramesIn(d)
\* U: units per dB
Floored(r, d, U) ==
  LET r1 == Raised(r, -45 * U)
      d1 == Raised(d, -45 * U)
      n == Common(r, d)
      fl == [k \in 1..n |-> MaxF(Peak(r1, k), Peak(d1, k)) - 45 * U]
      up(m) == [b \in 1..Bands(m) |-> [k \in 1..FramesIn(m) |-> IF k <= n THEN MaxF(m[b][k], fl[k]) ELSE m[b][k]]]
      r2 == up(r1)
      d2 == up(d1)
      low(m) == MinUpTo([b \in 1..Bands(m) |-> MinUpTo(m[b], FramesIn(m))], Bands(m))
      base == -MaxF(-low(r2), -low(d2))
      sub(m) == [b \in 1..Bands(m) |-> [k \in 1..FramesIn(m) |-> m[b][k] - base]]
  IN [r |-> sub(r2), d |-> sub(d2)]
=============================================================================
