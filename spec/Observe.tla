------------------------------ MODULE Observe ------------------------------
(* How observations of the implementation are encoded for TLC.              *)
EXTENDS Integers, Sequences

NotFinite == -2147000000
Finite(x) == x # NotFinite
AllFinite(s) == \A i \in 1..Len(s) : Finite(s[i])

One == 10000000                \* similarity 1
Clip(x) == IF x < 0 THEN -x ELSE x
Close(x, y, t) == Finite(x) /\ Finite(y) /\ Clip(x - y) <= t
AllClose(s, t, tol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Close(s[i], t[i], tol)

\* sample count -> microseconds (rounded down) and back (nearest)
Micros(n, sr) ==
  LET q == n \div sr
      r == (n % sr) * 1000
  IN q * 1000000 + (r \div sr) * 1000 + (((r % sr) * 1000) \div sr)
Samples(t, sr) ==
  LET q == t \div 1000000
      u == t % 1000000
      a == (u \div 1000) * sr
      b == (u % 1000) * sr
  IN q * sr + (a \div 1000) + ((((a % 1000) * 1000) + b + 500000) \div 1000000)

\* tolerance for times, in microseconds
TimeTol == 3
SameTime(t, n, sr) == Finite(t) /\ Clip(t - Micros(n, sr)) <= TimeTol

RECURSIVE SumFrom(_, _)
SumFrom(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumFrom(s, i + 1)
SumOf(s) == SumFrom(s, 1)
\* nearest integer to a/b, b > 0
RoundDiv(a, b) == (2 * a + b) \div (2 * b)
=============================================================================
