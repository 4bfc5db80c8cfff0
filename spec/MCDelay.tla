------------------------------ MODULE MCDelay ------------------------------
(* Finding and removing a delay as the implementation does it: a cyclic      *)
(* correlation on a padded power of two, its reordering into lags, the scan  *)
(* for the largest absolute value, the removal and the common cut; against   *)
(* the linear correlation and the definitions of module Delay.               *)
EXTENDS Delay, TLC, FiniteSets
CONSTANTS VALUES, LENS, Legacy
Signs == {-1, 0, 1}
Wide == {-2, -1, 0, 1, 2}

VARIABLES a, b, phase, k, cyc, scan, lag, deg, cutx, cuty
vars == <<a, b, phase, k, cyc, scan, lag, deg, cutx, cuty>>

Signals == UNION {[1..n -> VALUES] : n \in LENS}
Init == /\ a \in Signals /\ b \in Signals
        /\ phase = "corr" /\ k = 0 /\ cyc = <<>> /\ scan = [at |-> 0, v |-> 0] /\ lag = 0 /\ deg = <<>> /\ cutx = <<>> /\ cuty = <<>>

Longest == MaxD(Len(a), Len(b))
RECURSIVE Above(_, _)
Above(n, p) == IF p > n THEN p ELSE Above(n, 2 * p)
Pow == IF "padding" \in Legacy THEN Above(Longest - 1, 1) ELSE Above(2 * Longest - 1, 2)
At(s, i) == IF i < Len(s) THEN s[i + 1] ELSE 0           \* 0-based, padded
Cyclic(l) == SumD([t \in 1..Len(b) |-> At(a, (t - 1 + l) % Pow) * b[t]])
Correlate == /\ phase = "corr" /\ k < Pow /\ cyc' = Append(cyc, Cyclic(k)) /\ k' = k + 1
             /\ UNCHANGED <<a, b, phase, scan, lag, deg, cutx, cuty>>
\* the last max_lag entries are the negative lags, then come lags 0..max_lag
Top == Longest - 1
Reordered == SubSeq(cyc, Pow - Top + 1, Pow) \o SubSeq(cyc, 1, Top + 1)
Correlated == /\ phase = "corr" /\ k = Pow
              /\ IF Pow < Top THEN phase' = "panic" /\ UNCHANGED <<cyc, k>>
                 ELSE phase' = "scan" /\ cyc' = Reordered /\ k' = 2
              /\ scan' = [at |-> 1, v |-> 0]
              /\ UNCHANGED <<a, b, lag, deg, cutx, cuty>>
\* the last of the largest absolute values, then the first entry equal to it
Scan == /\ phase = "scan" /\ k <= Len(cyc)
        /\ scan' = IF AbsD(cyc[k]) >= AbsD(cyc[scan.at]) THEN [at |-> k, v |-> cyc[k]] ELSE [scan EXCEPT !.v = cyc[scan.at]]
        /\ k' = k + 1 /\ UNCHANGED <<a, b, phase, cyc, lag, deg, cutx, cuty>>
FirstEqual == CHOOSE i \in 1..Len(cyc) : cyc[i] = cyc[scan.at] /\ \A j \in 1..(i - 1) : cyc[j] # cyc[scan.at]
Scanned == /\ phase = "scan" /\ k > Len(cyc) /\ lag' = FirstEqual - 1 - Top /\ phase' = "remove"
           /\ UNCHANGED <<a, b, k, cyc, scan, deg, cutx, cuty>>
Leaves == IF "limit" \in Legacy THEN lag = 0 \/ AbsD(lag) >= Len(a) \div 2 ELSE lag = 0 \/ AbsD(lag) > Len(a) \div 2
TakeOut ==
          /\ phase = "remove"
          /\ deg' = (IF Leaves THEN b ELSE IF lag < 0 THEN SubSeq(b, 1 - lag, Len(b)) ELSE [i \in 1..lag |-> 0] \o b)
          /\ phase' = "cut" /\ UNCHANGED <<a, b, k, cyc, scan, lag, cutx, cuty>>
Removed == IF Leaves THEN 0 ELSE lag
\* both cut to the common part
CutBoth ==
       /\ phase = "cut"
       /\ LET from == IF "fromstart" \in Legacy THEN 0 ELSE MaxD(0, Removed) IN
          IF Len(a) < Len(deg)
          THEN cutx' = SubSeq(a, from + 1, Len(a)) /\ cuty' = SubSeq(deg, MaxD(0, Removed) + 1, Len(a))
          ELSE IF Len(a) > Len(deg) THEN cutx' = SubSeq(a, 1, Len(deg)) /\ cuty' = deg
          ELSE cutx' = a /\ cuty' = deg
       /\ phase' = "done" /\ UNCHANGED <<a, b, k, cyc, scan, lag, deg>>
Next == Correlate \/ Correlated \/ Scan \/ Scanned \/ TakeOut \/ CutBoth
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ends == <>(phase = "done")
NoPanic == phase # "panic"
Found == phase \in {"remove", "cut", "done"}
\* the cyclic correlation never wraps into another lag
CorrelationIsLinear == phase = "scan" => \A l \in (-Top)..Top : cyc[l + Top + 1] = Corr(a, b, l)
LagIsBest == Found => lag \in BestLags(a, b)
\* a copy with zeros in front or without its silent first samples: unless the signal resembles itself
\* elsewhere (in absolute value), exactly this delay is found, and removing it restores the signal
Distinct(s) == \A l \in 1..(Len(s) - 1) : AbsD(Corr(s, s, l)) < Corr(s, s, 0)
PureDelay == Found /\ Distinct(a) /\ Corr(a, a, 0) > 0 =>
  /\ \A d \in 0..Len(b) : b = Zeros(d) \o a => lag = -d
  /\ \A d \in 0..(Len(a) - 1) : b = SubSeq(a, d + 1, Len(a)) /\ SubSeq(a, 1, d) = Zeros(d) => lag = d
Restores == phase \in {"cut", "done"} /\ Distinct(a) /\ Corr(a, a, 0) > 0 =>
  \A d \in 0..Len(b) : b = Zeros(d) \o a /\ d <= Len(a) \div 2 => deg = a
AsDefined == phase \in {"cut", "done"} => [lag |-> Removed, deg |-> deg] = AlignWith(a, b, lag)
\* nothing is left to remove after prepending
Settled == phase = "done" /\ Removed > 0 => 0 \in BestLags(a, deg)
CutAsDefined == phase = "done" =>
  LET t == Truncate(a, AlignWith(a, b, lag)) IN cutx = t.x /\ cuty = t.y
\* C16: equal lengths, one start moves by the lag (only forward), nothing is shifted against each other
CutConsistent == phase = "done" =>
  /\ Len(cutx) = Len(cuty)
  /\ Len(cutx) <= Len(a)
  /\ \E m \in 0..Len(a) :
       /\ m <= MaxD(0, Removed)
       /\ cutx = SubSeq(a, m + 1, m + Len(cutx)) /\ cuty = SubSeq(deg, m + 1, m + Len(cuty))
=============================================================================
