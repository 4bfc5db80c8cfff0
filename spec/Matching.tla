----------------------------- MODULE Matching -----------------------------
(* The assignment of reference patches to offsets in the degraded           *)
(* spectrogram.  idx: patch starts (0-based frames); fdeg: frames of the     *)
(* degraded spectrogram; W: search window in frames; S[i][j+1]: similarity   *)
(* of patch i at offset j.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b

Lowest == -2000000000          \* below every sum of similarities

Window(radius, P) == IF radius > 1000000 THEN 30000000 ELSE radius * P

Lo(idx, i, W) == MaxOf(0, idx[i] - W)
Hi(idx, i, W, fdeg) == MinOf(idx[i] + W, fdeg - 1)
InWindow(idx, i, W, fdeg, j) == Lo(idx, i, W) <= j /\ j <= Hi(idx, i, W, fdeg)

\* ---- which trailing patches are dropped ----
Unreachable(idx, i, W, P, fdeg) ==
  \/ idx[i] - (P \div 2) > fdeg            \* begins more than half a patch after the end
  \/ idx[i] - W >= fdeg                    \* its window begins after the end
  \/ fdeg = 0
RECURSIVE Kept(_, _, _, _, _)
Kept(idx, n, W, P, fdeg) ==
  IF n = 0 THEN 0 ELSE IF Unreachable(idx, n, W, P, fdeg) THEN Kept(idx, n - 1, W, P, fdeg) ELSE n
NumPatches(idx, W, P, fdeg) == Kept(idx, Len(idx), W, P, fdeg)

\* ---- assignments ----
\* An assignment is the sequence of positions after each patch: a matched patch
\* moves the position strictly forward to its own offset, a lost one leaves it.
\* The first patch is always matched, and every position lies in the window of
\* its patch.
LegalPositions(pos, idx, W, fdeg) ==
  /\ \A i \in 1..Len(pos) : InWindow(idx, i, W, fdeg, pos[i])
  /\ \A i \in 2..Len(pos) : pos[i - 1] <= pos[i]
Matched(pos, i) == i = 1 \/ pos[i] # pos[i - 1]
Lost(pos, i) == ~Matched(pos, i)

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Total(pos, S) == SumSeq([i \in 1..Len(pos) |-> IF Matched(pos, i) THEN S[i][pos[i] + 1] ELSE 0])

\* ---- the table the implementation fills, one row per patch ----
\* row[j+1]: best total with the position at j after this patch, or Lowest
FirstRow(S, idx, W, fdeg) ==
  [k \in 1..fdeg |-> IF InWindow(idx, 1, W, fdeg, k - 1) THEN S[1][k] ELSE Lowest]
NextRow(prev, S, i, idx, W, fdeg) ==
  LET step(acc, k) ==     \* acc.best: best entry of prev strictly before k
        LET hit == IF acc.best = Lowest THEN Lowest ELSE acc.best + S[i][k]
            v == IF ~InWindow(idx, i, W, fdeg, k - 1) THEN Lowest ELSE MaxOf(hit, prev[k])
        IN [best |-> MaxOf(acc.best, prev[k]), row |-> Append(acc.row, v)]
  IN FoldLeft(step, [best |-> Lowest, row |-> <<>>], [k \in 1..fdeg |-> k]).row
Rows(S, idx, n, W, fdeg) ==
  FoldLeft(LAMBDA prev, i : NextRow(prev, S, i, idx, W, fdeg),
           FirstRow(S, idx, W, fdeg), [i \in 1..(n - 1) |-> i + 1])
Best(row) == FoldLeft(MaxOf, Lowest, row)
OptimalTotal(S, idx, n, W, fdeg) == Best(Rows(S, idx, n, W, fdeg))

\* ---- what "optimal" means, by enumeration (small instances only) ----
AllPositions(idx, n, W, fdeg) ==
  {pos \in [1..n -> 0..(fdeg - 1)] : LegalPositions(pos, idx, W, fdeg)}
BruteOptimum(S, idx, n, W, fdeg) ==
  LET T == {Total(pos, S) : pos \in AllPositions(idx, n, W, fdeg)}
  IN IF T = {} THEN Lowest ELSE CHOOSE t \in T : \A u \in T : u <= t
=============================================================================
