--------------------------- MODULE Segmentation ---------------------------
(* Which patches of the reference are compared.  Frames and patch starts are *)
(* 0-based, as in the implementation; sequences of patches are 1-based.      *)
EXTENDS Integers, Sequences, FiniteSets

HalfPatch(P) == P \div 2
FirstStart(P) == HalfPatch(P) - 1

\* fewest reference frames with which a variant can work
MinFrames(mode, P) == IF mode = "audio" THEN P + HalfPatch(P) ELSE FirstStart(P) + P

\* ---- audio mode: a regular grid, whatever the content ----
\* Starts FirstStart, FirstStart + P, ... while at least two further frames
\* follow the patch; the first patch is compared in any case.
AudioCount(frames, P) ==
  IF FirstStart(P) + P + 1 >= frames THEN 1
  ELSE 1 + (frames - P - 2 - FirstStart(P)) \div P
AudioGrid(frames, P) == [k \in 1..AudioCount(frames, P) |-> FirstStart(P) + (k - 1) * P]

\* ---- speech mode: consecutive patches with voice activity ----
SpeechCount(frames, P) == (frames - FirstStart(P)) \div P

\* loud[k]: chunk k on its own reaches the RMS threshold.  A chunk is inactive
\* only if it and both chunks before it are quiet; the first two are active.
Active(loud, k) == k <= 2 \/ loud[k] \/ loud[k - 1] \/ loud[k - 2]

PatchActive(loud, k, P) == \E c \in ((k - 1) * P + 1)..(k * P) : Active(loud, c)

RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Ascending(S \ {m})

SpeechStarts(frames, P, loud) ==
  {FirstStart(P) + (k - 1) * P : k \in {j \in 1..SpeechCount(frames, P) : PatchActive(loud, j, P)}}
SpeechGrid(frames, P, loud) == Ascending(SpeechStarts(frames, P, loud))

Range(s) == {s[i] : i \in 1..Len(s)}
StrictlyIncreasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]

\* idx is the speech segmentation for some reading of the chunks that are
\* within the numeric tolerance of the threshold (surely <= truth <= maybe)
SpeechSegmentationOk(idx, frames, P, surely, maybe) ==
  /\ StrictlyIncreasing(idx)
  /\ SpeechStarts(frames, P, surely) \subseteq Range(idx)
  /\ Range(idx) \subseteq SpeechStarts(frames, P, maybe)
=============================================================================
