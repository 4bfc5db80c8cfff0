--------------------------- MODULE MCAggregates ---------------------------
(* One band of the overall figures, accumulated patch by patch as the        *)
(* implementation does it, for small patches given cell by cell: patch means *)
(* and deviations are those of the cells, and the pooled figure is what it   *)
(* is meant to be.  Fractions are kept exactly by scaling with the product   *)
(* of the patch lengths.                                                     *)
EXTENDS Integers, Sequences, TLC, SequencesExt
CONSTANTS VALUES, MAXFRAMES, MAXPATCHES, Legacy

VARIABLES cells,    \* patches so far; a lost patch has only zero cells
          lost, phase, i, total, contribution, sum, variance
vars == <<cells, lost, phase, i, total, contribution, sum, variance>>

S(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Sq(s) == FoldLeft(LAMBDA a, x : a + x * x, 0, s)
Init == /\ cells = << <<>> >> /\ lost = {} /\ phase = "build" /\ i = 1
        /\ total = 0 /\ contribution = 0 /\ sum = 0 /\ variance = 0
NP == Len(cells)
Frame == /\ phase = "build" /\ Len(cells[NP]) < MAXFRAMES
         /\ \E v \in VALUES : cells' = [cells EXCEPT ![NP] = Append(@, v)]
         /\ UNCHANGED <<lost, phase, i, total, contribution, sum, variance>>
Patch == /\ phase = "build" /\ Len(cells[NP]) >= 2 /\ NP < MAXPATCHES /\ cells' = Append(cells, <<>>)
         /\ UNCHANGED <<lost, phase, i, total, contribution, sum, variance>>
Lose == /\ phase = "build" /\ NP > 1 /\ Len(cells[NP]) >= 2 /\ (\A c \in 1..Len(cells[NP]) : cells[NP][c] = 0)
        /\ NP \notin lost /\ lost' = lost \union {NP}
        /\ UNCHANGED <<cells, phase, i, total, contribution, sum, variance>>
Built == /\ phase = "build" /\ Len(cells[NP]) >= 2 /\ phase' = "sum"
         /\ UNCHANGED <<cells, lost, i, total, contribution, sum, variance>>

\* everything below is scaled by D (means) or D * D (squares)
N(k) == Len(cells[k])
RECURSIVE Product(_)
Product(k) == IF k = 0 THEN 1 ELSE N(k) * Product(k - 1)
D == Product(NP)
Mean(k) == (D * S(cells[k])) \div N(k)                                     \* times D
\* (n - 1) * deviation^2, times D^2
Spread(k) == FoldLeft(LAMBDA a, x : a + (D * x - Mean(k)) * (D * x - Mean(k)), 0, cells[k])
Counted(k) == IF "lostframes" \in Legacy /\ k \in lost THEN 0 ELSE N(k)
Accumulate ==
  /\ phase = "sum" /\ i <= NP
  /\ total' = total + Counted(i)
  /\ contribution' = contribution + (IF "population" \in Legacy THEN (Spread(i) * N(i)) \div (N(i) - 1) ELSE Spread(i)) + N(i) * Mean(i) * Mean(i)
  /\ sum' = sum + Mean(i)
  /\ i' = i + 1 /\ UNCHANGED <<cells, lost, phase, variance>>
\* variance * (total - 1), times (D * patches)^2
Finish ==
  /\ phase = "sum" /\ i > NP
  /\ LET v == NP * NP * contribution - total * sum * sum IN variance' = IF v < 0 /\ "negative" \notin Legacy THEN 0 ELSE v
  /\ phase' = "done" /\ UNCHANGED <<cells, lost, i, total, contribution, sum>>
Next == Frame \/ Patch \/ Lose \/ Built \/ Accumulate \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Accumulate \/ Finish)

Done == phase = "done"
All == FoldLeft(LAMBDA a, p : a \o p, <<>>, cells)
EqualLengths == \A k \in 1..NP : N(k) = N(1)
\* the deviation is real
NotNegative == Done => variance >= 0
\* patches of equal length: the deviation of all their cells together
PooledIsOverall == Done /\ EqualLengths =>
  variance = NP * NP * D * D * Sq(All) - (NP * NP * D * D * S(All) * S(All)) \div Len(All)
\* every patch counts, lost ones included
CountsEverything == Done => total = Len(All) /\ sum = FoldLeft(LAMBDA a, k : a + Mean(k), 0, [k \in 1..NP |-> k])
\* a constant band has no deviation
Flat == Done /\ (\A x, y \in 1..Len(All) : All[x] = All[y]) => variance = 0
\* the mean is between the smallest and the largest cell
Between == Done => \A lo, hi \in VALUES : (\A x \in 1..Len(All) : lo <= All[x] /\ All[x] <= hi) => NP * D * lo <= sum /\ sum <= NP * D * hi
Ends == (phase = "sum") ~> Done
=============================================================================
