-------------------------------- MODULE Nsim --------------------------------
(* The neurogram similarity index of two patches, matrices [band][frame] of  *)
(* integers in 1/scale, computed with 20 decimals.                            *)
EXTENDS Integers, Sequences, BigInt, Observe, SequencesExt

KN == 5
WCorner == Lit(0, <<113, 339, 1017, 3052, 0>>)        \* 0.0113033910173052
WEdge == Lit(0, <<838, 2514, 7544, 2633, 0>>)         \* 0.0838251475442633
WCenter == Lit(0, <<6194, 8584, 5753, 7260, 0>>)      \* 0.619485845753726
C1 == Lit(0, <<1, 0, 0, 0, 0>>)                       \* (0.01)^2
C3 == Lit(0, <<4, 5000, 0, 0, 0>>)                    \* (0.03)^2 / 2
MulN(x, y) == Shr(Mul(x, y), KN)
DivN(x, y) == Div(Shl(x, KN), y)
SqrtN(x) == Sqrt(Shl(x, KN))

Edge(i, n) == IF i < 1 THEN 1 ELSE IF i > n THEN n ELSE i        \* replicated borders
\* weighted 3x3 sum around (b, k) of an integer-valued function of the cell
Local(f(_, _), b, k, nb, nk) ==
  LET at(i, j) == f(Edge(i, nb), Edge(j, nk))
      corners == at(b - 1, k - 1) + at(b - 1, k + 1) + at(b + 1, k - 1) + at(b + 1, k + 1)
      edges == at(b - 1, k) + at(b + 1, k) + at(b, k - 1) + at(b, k + 1)
  IN Add(Add(Mul(WCorner, B(corners)), Mul(WEdge, B(edges))), Mul(WCenter, B(at(b, k))))

\* [lo, mid, hi] of one cell of the similarity map.  Where a local variance
\* vanishes its square root is at the mercy of rounding, so the variances are
\* only trusted to eps.
Eps == Lit(0, <<0, 0, 0, 40, 0>>)                     \* 4e-15 per unit of squared value
Cell(r, d, b, k, scale, big) ==
  LET nb == Len(r) nk == Len(r[1])
      s1 == B(scale) s2 == B(scale * scale)
      mr == Div(Local(LAMBDA i, j : r[i][j], b, k, nb, nk), s1)
      md == Div(Local(LAMBDA i, j : d[i][j], b, k, nb, nk), s1)
      rr == Div(Local(LAMBDA i, j : r[i][j] * r[i][j], b, k, nb, nk), s2)
      dd == Div(Local(LAMBDA i, j : d[i][j] * d[i][j], b, k, nb, nk), s2)
      rd == Div(Local(LAMBDA i, j : r[i][j] * d[i][j], b, k, nb, nk), s2)
      vr == Sub(rr, MulN(mr, mr))
      vd == Sub(dd, MulN(md, md))
      cov == Sub(rd, MulN(mr, md))
      int == DivN(Add(Mul(MulN(mr, md), B(2)), C1), Add(Add(MulN(mr, mr), MulN(md, md)), C1))
      num == Add(cov, C3)
      eps == Mul(Eps, B(big))
      pos(x) == IF x.s < 0 THEN BZero ELSE x
      den(e) == Add(SqrtN(MulN(pos(Add(vr, e)), pos(Add(vd, e)))), C3)
      val(e) == MulN(int, DivN(num, den(e)))
      a == val(eps) z == val(Neg(eps))
  IN [lo |-> IF Lt(a, z) THEN a ELSE z, mid |-> val(BZero), hi |-> IF Lt(a, z) THEN z ELSE a]

\* to 1e-7, rounded
To7(x) == LET half == Shl(B(1), KN - 2) IN
          ToInt(Div(Add(Mul(x, B(10000000)), IF x.s < 0 THEN Neg(Div(Shl(B(1), KN), B(2))) ELSE Div(Shl(B(1), KN), B(2))), Shl(B(1), KN)))
MaxAbs(m) == FoldLeft(LAMBDA a, row : FoldLeft(LAMBDA c, x : IF Clip(x) > c THEN Clip(x) ELSE c, a, row), 1, m)

\* per band: [mean interval, std nominal, slack], all in 1e-7
BandStats(r, d, b, scale) ==
  LET nk == Len(r[1])
      m == LET x == MaxAbs(<<r[b], d[b]>>) IN 1 + (x * x) \div (scale * scale)
      bigv == 1 + (MaxAbs(r) * MaxAbs(r) + MaxAbs(d) * MaxAbs(d)) \div (scale * scale)
      c == TLCEval([k \in 1..nk |-> Cell(r, d, b, k, scale, bigv)])
      add(f) == FoldLeft(LAMBDA a, k : Add(a, c[k][f]), BZero, [k \in 1..nk |-> k])
      n == B(nk)
      mean == Div(add("mid"), n)
      dev2 == TLCEval(FoldLeft(LAMBDA a, k : LET x == Sub(c[k].mid, mean) IN Add(a, MulN(x, x)), BZero, [k \in 1..nk |-> k]))
      width == FoldLeft(LAMBDA a, k : LET w == Sub(c[k].hi, c[k].lo) IN IF Lt(a, w) THEN w ELSE a, BZero, [k \in 1..nk |-> k])
  IN [lo |-> To7(Div(add("lo"), n)), hi |-> To7(Div(add("hi"), n)),
      std |-> IF nk = 1 THEN NotFinite ELSE To7(SqrtN(Div(dev2, B(nk - 1)))), slack |-> 2 * To7(width)]
=============================================================================
