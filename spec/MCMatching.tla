---------------------------- MODULE MCMatching ----------------------------
(* The matching algorithm as the implementation runs it - one table row per  *)
(* step, then one backtracking step per patch - on every small instance,     *)
(* against the definition of optimality by enumeration.                      *)
EXTENDS Matching, TLC
CONSTANTS NP,       \* patches
          FDEG,     \* set of degraded lengths in frames
          GAPS,     \* set of distances between patches
          PLEN,     \* patch length in frames
          RADII,    \* set of radii
          SIMS,     \* set of similarity values, plus 1 (a similarity may be negative)
          Legacy    \* deviations of earlier versions of the code
VARIABLES in, n, i, table, back, pos, phase
vars == <<in, n, i, table, back, pos, phase>>

Starts(first, gaps) == [k \in 1..(Len(gaps) + 1) |-> first + SumSeq(SubSeq(gaps, 1, k - 1))]

Init ==
  /\ \E np \in 1..NP, f \in FDEG, r \in RADII, first \in 0..1 :
       \E g \in [1..(np - 1) -> GAPS], s \in [1..np -> [1..f -> {v - 1 : v \in SIMS}]] :
         in = [idx |-> Starts(first, g), fdeg |-> f, W |-> Window(r, PLEN), S |-> s]
  /\ n = NumPatches(in.idx, in.W, PLEN, in.fdeg)
  /\ i = 1 /\ table = <<>> /\ back = <<>> /\ pos = <<>> /\ phase = "fill"

Unset == IF "zeroinit" \in Legacy THEN 0 ELSE Lowest
Cell(r, j) == IF r = 0 THEN Unset ELSE table[r][j + 1]

\* best predecessor: scanning downwards from j-1, strictly better wins
RECURSIVE Pred(_, _, _, _)
Pred(j, lo, best, at) ==
  IF j < lo THEN [v |-> best, at |-> at]
  ELSE LET c == Cell(i - 1, j) IN IF c > best THEN Pred(j - 1, lo, c, j) ELSE Pred(j - 1, lo, best, at)

Fill ==
  /\ phase = "fill" /\ n > 0 /\ i <= n
  /\ LET cell(j) ==
           IF ~InWindow(in.idx, i, in.W, in.fdeg, j) THEN [v |-> Unset, at |-> 0]
           ELSE IF i = 1 THEN [v |-> in.S[1][j + 1], at |-> -1]
           ELSE LET p == Pred(j - 1, Lo(in.idx, i - 1, in.W), Lowest, -1)
                    hit == IF p.v = Lowest THEN Lowest ELSE p.v + in.S[i][j + 1]
                IN IF Cell(i - 1, j) > hit THEN [v |-> Cell(i - 1, j), at |-> j] ELSE [v |-> hit, at |-> p.at]
         row == [k \in 1..in.fdeg |-> cell(k - 1)]
     IN /\ table' = Append(table, [k \in 1..in.fdeg |-> row[k].v])
        /\ back' = Append(back, [k \in 1..in.fdeg |-> row[k].at])
  /\ i' = i + 1
  /\ UNCHANGED <<in, n, pos, phase>>

\* the last patch takes the first best entry of its window
FirstBest(lo, hi) ==
  CHOOSE j \in lo..hi : /\ \A k \in lo..hi : table[n][k + 1] <= table[n][j + 1]
                        /\ \A k \in lo..(j - 1) : table[n][k + 1] < table[n][j + 1]
PickLast ==
  /\ phase = "fill" /\ n > 0 /\ i = n + 1
  /\ LET lo == Lo(in.idx, n, in.W) hi == Hi(in.idx, n, in.W, in.fdeg)
     IN pos' = <<FirstBest(lo, hi)>>
  /\ phase' = "back" /\ i' = n
  /\ UNCHANGED <<in, n, table, back>>

Back ==
  /\ phase = "back" /\ i > 1
  /\ pos' = <<back[i][pos[1] + 1]>> \o pos
  /\ i' = i - 1
  /\ UNCHANGED <<in, n, table, back, phase>>
Done == phase = "back" /\ i = 1 /\ phase' = "done" /\ UNCHANGED <<in, n, i, table, back, pos>>
Reject == phase = "fill" /\ n = 0 /\ phase' = "different" /\ UNCHANGED <<in, n, i, table, back, pos>>
Next == Fill \/ PickLast \/ Back \/ Done \/ Reject
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---- properties ----
Ends == <>(phase \in {"done", "different"})
\* C14
LegalWhenDone == phase = "done" => LegalPositions(pos, in.idx, in.W, in.fdeg)
OptimalWhenDone == phase = "done" => Total(pos, in.S) = BruteOptimum(in.S, in.idx, n, in.W, in.fdeg)
\* the oracle used on traces agrees with the definition
OracleOk == phase = "done" => OptimalTotal(in.S, in.idx, n, in.W, in.fdeg) = BruteOptimum(in.S, in.idx, n, in.W, in.fdeg)
\* no table access outside the degraded spectrogram
InBounds == \A k \in 1..Len(pos) : pos[k] \in 0..(in.fdeg - 1)
WindowsNonEmpty == \A k \in 1..n : Lo(in.idx, k, in.W) <= Hi(in.idx, k, in.W, in.fdeg)
\* C05: where every patch is most similar to its own position alone, it is matched there
OwnBest(k) == in.idx[k] < in.fdeg /\ \A j \in 0..(in.fdeg - 1) : j # in.idx[k] => in.S[k][j + 1] < in.S[k][in.idx[k] + 1]
SelfMatch == phase = "done" /\ (\A k \in 1..n : OwnBest(k)) => pos = SubSeq(in.idx, 1, n)
\* C15: what is dropped is a suffix of unreachable patches
DropOk == /\ n <= Len(in.idx)
          /\ \A k \in (n + 1)..Len(in.idx) : Unreachable(in.idx, k, in.W, PLEN, in.fdeg)
          /\ n > 0 => ~Unreachable(in.idx, n, in.W, PLEN, in.fdeg)
=============================================================================
