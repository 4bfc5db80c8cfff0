------------------------------- MODULE BigInt -------------------------------
(* Exact integers of any size, in pure TLA+, because TLC's own integers have *)
(* 32 bits.  A magnitude is a little-endian sequence of limbs base 10^4      *)
(* without leading zero limbs; an integer is [s |-> -1, 0 or 1, m |-> limbs]. *)
(* Reals are fixed-point integers: x stands for x / 10^(4*k) with k stated    *)
(* by the user of the module.                                                 *)
EXTENDS Integers, Sequences, TLC

Base == 10000

RECURSIVE Trim(_)
Trim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE Trim(SubSeq(a, 1, Len(a) - 1))

\* carry propagation over column sums (each < 2^31 - Base)
RECURSIVE Carry(_, _, _, _)
Carry(cols, i, c, acc) ==
  IF i > Len(cols)
  THEN IF c = 0 THEN Trim(acc) ELSE Carry(cols, i, c \div Base, Append(acc, c % Base))
  ELSE LET t == cols[i] + c IN Carry(cols, i + 1, t \div Base, Append(acc, t % Base))

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
MaxN(a, b) == IF a > b THEN a ELSE b
MinN(a, b) == IF a < b THEN a ELSE b

AddM(a, b) == Carry(TLCEval([i \in 1..MaxN(Len(a), Len(b)) |-> Limb(a, i) + Limb(b, i)]), 1, 0, <<>>)

\* a - b for magnitudes a >= b  (\div and % round towards minus infinity)
SubM(a, b) == Carry(TLCEval([i \in 1..Len(a) |-> a[i] - Limb(b, i)]), 1, 0, <<>>)

RECURSIVE SumTo(_, _, _, _, _)
SumTo(a, b, k, i, hi) == IF i > hi THEN 0 ELSE a[i] * b[k - i + 1] + SumTo(a, b, k, i + 1, hi)
MulM(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE Carry(TLCEval([k \in 1..(Len(a) + Len(b) - 1) |->
               SumTo(a, b, k, MaxN(1, k - Len(b) + 1), MinN(k, Len(a)))]), 1, 0, <<>>)

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE CmpFrom(a, b, i - 1)
CmpM(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpFrom(a, b, Len(a))

Mk(s, m) == IF m = <<>> THEN [s |-> 0, m |-> <<>>] ELSE [s |-> s, m |-> m]

BZero == [s |-> 0, m |-> <<>>]
\* a native integer
B(n) == IF n = 0 THEN BZero ELSE IF n > 0 THEN [s |-> 1, m |-> Carry(<<n>>, 1, 0, <<>>)]
                                 ELSE [s |-> -1, m |-> Carry(<<-n>>, 1, 0, <<>>)]
Neg(x) == [x EXCEPT !.s = -x.s]
Abs(x) == [x EXCEPT !.s = IF x.s = 0 THEN 0 ELSE 1]
Add(x, y) ==
  IF x.s = 0 THEN y ELSE IF y.s = 0 THEN x
  ELSE IF x.s = y.s THEN [s |-> x.s, m |-> AddM(x.m, y.m)]
  ELSE LET c == CmpM(x.m, y.m) IN
       IF c = 0 THEN BZero ELSE IF c > 0 THEN Mk(x.s, SubM(x.m, y.m)) ELSE Mk(y.s, SubM(y.m, x.m))
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == Mk(x.s * y.s, MulM(x.m, y.m))
Cmp(x, y) == Sub(x, y).s
Leq(x, y) == Cmp(x, y) <= 0
Lt(x, y) == Cmp(x, y) < 0

\* shift by k limbs: multiply by 10^(4k), or divide truncating towards zero
Shl(x, k) == IF x.s = 0 THEN x ELSE [x EXCEPT !.m = TLCEval([i \in 1..(Len(x.m) + k) |-> IF i <= k THEN 0 ELSE x.m[i - k]])]
Shr(x, k) == IF Len(x.m) <= k THEN BZero ELSE [x EXCEPT !.m = SubSeq(x.m, k + 1, Len(x.m))]

\* floor(a / b) of magnitudes, schoolbook with a binary search per limb
RECURSIVE QDigit(_, _, _, _)
QDigit(r, b, lo, hi) ==       \* largest q in lo..hi with q*b <= r
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF CmpM(MulM(IF mid = 0 THEN <<>> ELSE <<mid>>, b), r) <= 0 THEN QDigit(r, b, mid, hi) ELSE QDigit(r, b, lo, mid - 1)
RECURSIVE DivGo(_, _, _, _, _)
DivGo(a, b, i, r, q) ==
  IF i = 0 THEN Trim(q)
  ELSE LET r1 == Trim(<<a[i]>> \o r)
           d == IF CmpM(r1, b) < 0 THEN 0 ELSE
                \* bounds from the leading limbs narrow the search
                LET n == Len(b)
                    top == IF Len(r1) > n THEN r1[Len(r1)] * Base + r1[Len(r1) - 1] ELSE r1[Len(r1)]
                    lo == top \div (b[n] + 1)
                    hi == MinN(Base - 1, (top + 1) \div b[n])
                IN QDigit(r1, b, lo, MaxN(lo, hi))
       IN DivGo(a, b, i - 1, IF d = 0 THEN r1 ELSE SubM(r1, MulM(<<d>>, b)), <<d>> \o q)
DivM(a, b) == DivGo(a, b, Len(a), <<>>, <<>>)
\* truncating division
Div(x, y) == Mk(x.s * y.s, DivM(x.m, y.m))

\* integer square root of a magnitude by Newton's iteration from above
RECURSIVE Newton(_, _)
Newton(a, x) == LET y == DivM(AddM(x, DivM(a, x)), <<2>>) IN IF CmpM(y, x) >= 0 THEN x ELSE Newton(a, y)
\* start: a power of 10^2 that is at least sqrt(a), refined from the leading limbs
RECURSIVE SmallRoot(_, _, _)
SmallRoot(n, lo, hi) == IF lo = hi THEN lo ELSE LET mid == (lo + hi) \div 2 IN IF mid * mid >= n THEN SmallRoot(n, lo, mid) ELSE SmallRoot(n, mid + 1, hi)
SqrtM(a) ==
  IF a = <<>> THEN <<>>
  ELSE LET n == Len(a)
           odd == n % 2
           lead == IF n = 1 THEN a[1] + 1 ELSE IF odd = 1 THEN a[n] + 1 ELSE a[n] * Base + a[n - 1] + 1
           r == SmallRoot(lead, 1, 10001)
           k == IF odd = 1 THEN (n - 1) \div 2 ELSE (n - 2) \div 2
           x0 == Carry(TLCEval([i \in 1..(k + 1) |-> IF i <= k THEN 0 ELSE r]), 1, 0, <<>>)
       IN Newton(a, x0)
Sqrt(x) == Mk(1, SqrtM(x.m))

\* back to a native integer (callers know it fits)
RECURSIVE ToNat(_, _)
ToNat(m, i) == IF i > Len(m) THEN 0 ELSE m[i] + Base * ToNat(m, i + 1)
Fits(x) == Len(x.m) <= 2 \/ (Len(x.m) = 3 /\ x.m[3] <= 20)
ToInt(x) == x.s * ToNat(x.m, 1)

\* |x - y| <= t
Near(x, y, t) == Leq(Abs(Sub(x, y)), t)

\* decimal literals: digits of the integer part and of the fraction in groups of four
\* Lit(i, <<f1, f2, ...>>) has Len(f) fraction limbs
Lit(i, f) == LET n == Len(f) IN Mk(1, Trim(Carry(TLCEval([k \in 1..(n + 1) |-> IF k <= n THEN f[n + 1 - k] ELSE i]), 1, 0, <<>>)))

\* e^x for a fixed-point x with k fraction limbs, |x| < 8: Taylor on x / 2^h, then squaring
RECURSIVE Taylor(_, _, _, _, _)
Taylor(x, k, n, term, sum) ==
  IF n > 14 \/ term.s = 0 THEN sum
  ELSE LET t == Div(Shr(Mul(term, x), k), B(n)) IN Taylor(x, k, n + 1, t, Add(sum, t))
RECURSIVE SqTimes(_, _, _)
SqTimes(x, k, h) == IF h = 0 THEN x ELSE SqTimes(Shr(Mul(x, x), k), k, h - 1)
Exp(x, k) == LET one == Shl(B(1), k) IN SqTimes(Taylor(Div(x, B(16)), k, 1, one, one), k, 4)
=============================================================================
