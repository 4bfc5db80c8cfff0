------------------------------- MODULE Delay -------------------------------
(* Finding and removing the delay between two signals (small integer         *)
(* signals, exactly).  Sequences are 1-based, lags as in the implementation: *)
(* a positive lag means the degraded signal is early.                        *)
EXTENDS Integers, Sequences, BigInt, SequencesExt

AbsD(x) == IF x < 0 THEN -x ELSE x
MaxD(a, b) == IF a > b THEN a ELSE b
SumD(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Zeros(n) == [i \in 1..n |-> 0]

\* sum over t of a[t + lag] * b[t]
Terms(a, b, lag) == {t \in 1..Len(b) : t + lag >= 1 /\ t + lag <= Len(a)}
CorrFrom(a, b, lag) == MaxD(1, 1 - lag)
CorrTo(a, b, lag) == IF Len(b) < Len(a) - lag THEN Len(b) ELSE Len(a) - lag
Corr(a, b, lag) ==
  LET f == CorrFrom(a, b, lag) t == CorrTo(a, b, lag)
  IN IF t < f THEN 0 ELSE SumD([i \in 1..(t - f + 1) |-> a[f + i - 1 + lag] * b[f + i - 1]])
MaxLag(a, b) == MaxD(Len(a), Len(b)) - 1
Lags(a, b) == (-MaxLag(a, b))..MaxLag(a, b)
BestLags(a, b) ==
  LET c == [l \in Lags(a, b) |-> AbsD(Corr(a, b, l))]
  IN {l \in Lags(a, b) : \A m \in Lags(a, b) : c[m] <= c[l]}

\* ---- amplitude envelopes, scaled by Len(x) * Fft(Len(x)) ----
RECURSIVE Pow2From(_, _)
Pow2From(n, p) == IF p >= n THEN p ELSE Pow2From(n, 2 * p)
Fft(n) == Pow2From(n, 32)
Envelope(x) ==
  LET n == Len(x)
      N == Fft(n)
      s == SumD(x)
      c == [i \in 1..n |-> n * x[i] - s]
      sign == [i \in 1..n |-> IF i % 2 = 1 THEN 1 ELSE -1]
      alt == SumD([i \in 1..n |-> sign[i] * c[i]])
      re == [i \in 1..n |-> IF n = N THEN N * c[i] ELSE N * c[i] - sign[i] * alt]
  IN [i \in 1..n |-> AbsD(2 * re[i]) + N * s]

\* correlation of long envelopes without overflow
BigCorr(a, b, lag) ==
  LET f == CorrFrom(a, b, lag) t == CorrTo(a, b, lag)
      n == t - f + 1
      x == [i \in 1..n |-> a[f + i - 1 + lag]]
      y == [i \in 1..n |-> b[f + i - 1]]
      hh == SumD([i \in 1..n |-> (x[i] \div 1000) * (y[i] \div 1000)])
      hl == SumD([i \in 1..n |-> (x[i] \div 1000) * (y[i] % 1000) + (x[i] % 1000) * (y[i] \div 1000)])
      ll == SumD([i \in 1..n |-> (x[i] % 1000) * (y[i] % 1000)])
  IN IF n < 1 THEN BZero ELSE Add(Add(Mul(B(hh), B(1000000)), Mul(B(hl), B(1000))), B(ll))
\* lags whose absolute correlation is the largest up to rounding (2e-5)
NearBestLags(a, b) ==
  LET c == [l \in Lags(a, b) |-> Abs(BigCorr(a, b, l))]
      top == FoldLeft(LAMBDA m, l : IF Lt(m, c[l]) THEN c[l] ELSE m, BZero, [k \in 1..(2 * MaxLag(a, b) + 1) |-> k - 1 - MaxLag(a, b)])
  IN {l \in Lags(a, b) : Leq(Mul(Sub(top, c[l]), B(50000)), top)}
BestDelays(ref, deg) ==
  \* the two envelopes have different positive scale factors, which do not matter
  NearBestLags(Envelope(ref), Envelope(deg))

\* ---- removing it ----
Removable(ref, lag) == lag # 0 /\ AbsD(lag) <= Len(ref) \div 2
Shifted(deg, lag) == IF lag < 0 THEN SubSeq(deg, 1 - lag, Len(deg)) ELSE Zeros(lag) \o deg
AlignWith(ref, deg, lag) == IF Removable(ref, lag) THEN [lag |-> lag, deg |-> Shifted(deg, lag)] ELSE [lag |-> 0, deg |-> deg]
Aligned(ref, deg) == {AlignWith(ref, deg, l) : l \in BestDelays(ref, deg)}

\* both signals cut to the part they share
Truncate(ref, al) ==
  LET d == al.deg
      from == MaxD(0, al.lag)
  IN IF Len(ref) < Len(d) THEN [lag |-> al.lag, x |-> SubSeq(ref, from + 1, Len(ref)), y |-> SubSeq(d, from + 1, Len(ref))]
     ELSE [lag |-> al.lag, x |-> SubSeq(ref, 1, Len(d)), y |-> d]
Truncated(ref, deg) == {Truncate(ref, a) : a \in Aligned(ref, deg)}
=============================================================================
