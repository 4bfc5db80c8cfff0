---------------------------- MODULE Aggregates ----------------------------
(* The overall figures of a result as functions of its patches.              *)
EXTENDS Integers, Sequences, BigInt, Observe, SequencesExt

Column(ps, field, b) == [i \in 1..Len(ps) |-> ps[i][field][b]]
SumN(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
\* arithmetic mean of values that may be large
MeanOk(s, m, tol) ==
  LET n == Len(s)
      hi == SumN([i \in 1..n |-> s[i] \div 1000])
      lo == SumN([i \in 1..n |-> s[i] % 1000])
      total == Add(Mul(B(hi), B(1000)), B(lo))
  IN Leq(Abs(Sub(Mul(B(m), B(n)), total)), B(n * tol))

WellFormed(r, bands) ==
  /\ Len(r.patches) >= 1
  /\ Len(r.fvnsim) = bands /\ Len(r.fstd) = bands /\ Len(r.fen) = bands /\ Len(r.centers) = bands
  /\ \A i \in 1..Len(r.patches) :
       /\ Len(r.patches[i].means) = bands /\ Len(r.patches[i].stds) = bands /\ Len(r.patches[i].en) = bands
AllNumbersFinite(r) ==
  /\ Finite(r.mos) /\ Finite(r.vnsim) /\ AllFinite(r.fvnsim) /\ AllFinite(r.fstd) /\ AllFinite(r.fen) /\ AllFinite(r.centers)
  /\ \A i \in 1..Len(r.patches) :
       LET p == r.patches[i] IN
       /\ AllFinite(<<p.sim, p.rs, p.re, p.ds, p.de>>) /\ AllFinite(p.means) /\ AllFinite(p.stds) /\ AllFinite(p.en)
Usable(r, bands) == WellFormed(r, bands) /\ AllNumbersFinite(r)

IsLost(p) == p.ds = 0 /\ p.de = 0

PatchSimilarityOk(p) ==
  IF IsLost(p) THEN p.sim = 0 /\ \A b \in 1..Len(p.means) : p.means[b] = 0
  ELSE MeanOk(p.means, p.sim, 2)

\* ---- pooled deviation ----
\* frames of a patch: its duration rounded up to whole frames; a duration of
\* exactly k frames may count as k or k + 1 (binary fractions of a second)
FrameCounts(p, sr, hop) ==
  LET d == Samples(p.re - p.rs, sr)
      c == (d + hop - 1) \div hop
  IN IF d % hop = 0 THEN {c, c + 1} ELSE IF d % hop = hop - 1 \/ d % hop = 1 THEN {c, c + 1, c - 1} ELSE {c}

\* (n-1)*std^2 and the like are in 1e-14
Pooled(ps, counts, b) ==
  LET np == Len(ps)
      total == SumN(counts)
      sq(x) == Mul(B(x), B(x))
      t == FoldLeft(LAMBDA a, i : Add(a, Add(Mul(B(counts[i] - 1), sq(ps[i].stds[b])), Mul(B(counts[i]), sq(ps[i].means[b])))),
                    BZero, [i \in 1..np |-> i])
      s == SumN(Column(ps, "means", b))
      m2 == Div(Mul(B(total), sq(s)), B(np * np))
  IN Sub(t, m2)            \* pooled variance times (total - 1), in 1e-14
PooledOk(ps, counts, b, dev) ==
  LET total == SumN(counts)
      v == Pooled(ps, counts, b)
      want == IF v.s < 0 THEN BZero ELSE v
      got == Mul(B(total - 1), Mul(B(dev), B(dev)))
      tol == Mul(B(total - 1), B(60000000))        \* 6e-7 of variance
  IN Leq(Abs(Sub(got, want)), tol)
RECURSIVE ChoicesFrom(_, _)
ChoicesFrom(allowed, i) == IF i > Len(allowed) THEN {<<>>}
                           ELSE {<<c>> \o t : c \in allowed[i], t \in ChoicesFrom(allowed, i + 1)}

DeviationOk(r, sr, hop) ==
  LET ps == r.patches
      n == Len(ps)
      all(c) == \A b \in 1..Len(r.fstd) : r.fstd[b] >= 0 /\ PooledOk(ps, c, b, r.fstd[b])
      hint == [i \in 1..n |-> ps[i].nf]
      allowed == [i \in 1..n |-> FrameCounts(ps[i], sr, hop)]
  IN \/ (\A i \in 1..n : hint[i] \in allowed[i]) /\ all(hint)
     \/ n <= 6 /\ \E c \in ChoicesFrom(allowed, 1) : all(c)

CentersOk(c) == \A i \in 1..(Len(c) - 1) : c[i] < c[i + 1]
=============================================================================
