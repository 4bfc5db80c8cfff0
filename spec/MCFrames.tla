------------------------------ MODULE MCFrames ------------------------------
(* Cutting a signal into analysis windows: a bank of recursive filters (here *)
(* one, over small integers) runs over each window from rest; only its       *)
(* output within the window enters the frame.                                *)
EXTENDS Integers, Sequences, TLC
CONSTANTS RATES,        \* sample rates (so small that windows are 8 to 14 samples)
          LENGTHS, CONTENT, Legacy
ContentsFew == {"zero", "early", "late", "ones", "rising"}

VARIABLES sr, n, kind, pos, state, t, acc, frames, phase
vars == <<sr, n, kind, pos, state, t, acc, frames, phase>>
Win == (8 * sr + 50) \div 100
Hop == Win \div 4
X(i) == CASE kind = "zero" -> 0 [] kind = "early" -> (IF i = 0 THEN 1 ELSE 0) [] kind = "late" -> (IF i = n - 1 THEN 1 ELSE 0)
          [] kind = "ones" -> 1 [] OTHER -> i
Init == /\ sr \in RATES /\ n \in LENGTHS /\ kind \in CONTENT
        /\ pos = 0 /\ state = 0 /\ t = 0 /\ acc = 0 /\ frames = <<>> /\ phase = "start"
Start == /\ phase = "start"
         /\ phase' = IF n < Win THEN "tooshort" ELSE "filter"
         /\ UNCHANGED <<sr, n, kind, pos, state, t, acc, frames>>
Fits == IF "partial" \in Legacy THEN pos < n ELSE pos + Win <= n
Filter == /\ phase = "filter" /\ Fits /\ t < Win
          /\ LET x == IF pos + t < n THEN X(pos + t) ELSE 0 IN
             /\ state' = (state + x) % 97
             /\ acc' = acc + state'
          /\ t' = t + 1 /\ UNCHANGED <<sr, n, kind, pos, frames, phase>>
FrameDone == /\ phase = "filter" /\ Fits /\ t = Win
             /\ frames' = Append(frames, [from |-> pos, value |-> acc])
             /\ pos' = pos + (IF "hop" \in Legacy THEN (Win + 2) \div 4 ELSE Hop)
             /\ t' = 0 /\ acc' = 0 /\ state' = (IF "keepstate" \in Legacy THEN state ELSE 0)
             /\ UNCHANGED <<sr, n, kind, phase>>
Finish == phase = "filter" /\ ~Fits /\ phase' = "done" /\ UNCHANGED <<sr, n, kind, pos, state, t, acc, frames>>
Next == Start \/ Filter \/ FrameDone \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ends == <>(phase \in {"done", "tooshort"})
Done == phase = "done"
Count == Done => Len(frames) = 1 + ((n - Win) \div Hop)
Refused == (phase = "tooshort") => n < Win
Spaced == \A k \in 1..Len(frames) : frames[k].from = (k - 1) * Hop
Inside == \A k \in 1..Len(frames) : frames[k].from + Win <= n
\* the frame as a function of its own window only
RECURSIVE Own(_, _, _, _)
Own(from, i, s, a) == IF i = Win THEN a ELSE LET u == (s + X(from + i)) % 97 IN Own(from, i + 1, u, a + u)
Local == \A k \in 1..Len(frames) : frames[k].value = Own(frames[k].from, 0, 0, 0)
Silence == kind = "zero" => \A k \in 1..Len(frames) : frames[k].value = 0
\* less than one hop of the signal remains unused
AlmostAll == Done => n - (frames[Len(frames)].from + Win) < Hop
=============================================================================
