-------------------------- MODULE MCSegmentation --------------------------
(* The two ways of cutting the reference into patches, step by step as the   *)
(* implementation performs them (one chunk, one patch or one grid position   *)
(* per step), for every small number of frames and every pattern of loud     *)
(* chunks, against the definitions in Segmentation.                          *)
EXTENDS Segmentation, TLC
CONSTANTS MODES, PATCHES, FRAMES, Legacy

VARIABLES in,       \* [mode, P, frames, loud]
          phase, k, results, vad, sum, out
vars == <<in, phase, k, results, vad, sum, out>>

Chunks(P, f) == SpeechCount(f, P) * P
Init ==
  /\ \E m \in MODES, P \in PATCHES, f \in FRAMES :
       IF m = "audio" THEN in = [mode |-> m, P |-> P, frames |-> f, loud |-> <<>>]
       ELSE IF f < MinFrames(m, P) THEN in = [mode |-> m, P |-> P, frames |-> f, loud |-> <<>>]
       ELSE \E l \in [1..Chunks(P, f) -> BOOLEAN] : in = [mode |-> m, P |-> P, frames |-> f, loud |-> l]
  /\ phase = "start" /\ k = 0 /\ results = <<>> /\ vad = <<>> /\ sum = 0 /\ out = <<>>

Reject == /\ phase = "start" /\ in.frames < MinFrames(in.mode, in.P) /\ phase' = "short"
          /\ UNCHANGED <<in, k, results, vad, sum, out>>

\* ---- audio: positions P/2, P/2 + P, ... below the end of the grid; a start is one less ----
Half == in.P \div 2
GridEnd == IF "gridend" \in Legacy THEN in.frames - in.P + 1
           ELSE IF Half < in.frames - in.P THEN in.frames - in.P ELSE Half + 1
StartAudio == /\ phase = "start" /\ in.mode = "audio" /\ in.frames >= MinFrames(in.mode, in.P)
              /\ phase' = "grid" /\ k' = Half
              /\ UNCHANGED <<in, results, vad, sum, out>>
GridStep == /\ phase = "grid" /\ k < GridEnd
            /\ out' = Append(out, k - 1) /\ k' = k + in.P
            /\ UNCHANGED <<in, phase, results, vad, sum>>
GridDone == /\ phase = "grid" /\ k >= GridEnd /\ phase' = "done"
            /\ UNCHANGED <<in, k, results, vad, sum, out>>

\* ---- speech: chunk by chunk, then smoothing, then patch by patch ----
StartSpeech == /\ phase = "start" /\ in.mode # "audio" /\ in.frames >= MinFrames(in.mode, in.P)
               /\ phase' = "chunks" /\ k' = 1
               /\ UNCHANGED <<in, results, vad, sum, out>>
Chunk == /\ phase = "chunks" /\ k <= Len(in.loud)
         /\ results' = Append(results, IF in.loud[k] THEN 1 ELSE 0) /\ k' = k + 1
         /\ UNCHANGED <<in, phase, vad, sum, out>>
ChunksDone == /\ phase = "chunks" /\ k > Len(in.loud)
              /\ phase' = "smooth" /\ k' = 3
              /\ vad' = IF "nohead" \in Legacy THEN SubSeq(results, 1, 2) ELSE <<1, 1>>
              /\ UNCHANGED <<in, results, sum, out>>
\* a quiet chunk is inactive only if the two before it are quiet as well
Memory == IF "memory1" \in Legacy THEN 1 ELSE 2
Quiet(j) == \A d \in 0..Memory : results[j - d] = 0
Smooth == /\ phase = "smooth" /\ k <= Len(results)
          /\ vad' = Append(vad, IF Quiet(k) THEN 0 ELSE 1) /\ k' = k + 1
          /\ UNCHANGED <<in, phase, results, sum, out>>
SmoothDone == /\ phase = "smooth" /\ k > Len(results)
              /\ phase' = "patches" /\ k' = 1 /\ sum' = 0
              /\ UNCHANGED <<in, results, vad, out>>
Threshold == IF "strict" \in Legacy THEN 2 ELSE 1
PatchStep == /\ phase = "patches" /\ k <= Len(vad)
             /\ LET s == sum + vad[k] IN
                IF k % in.P = 0
                THEN /\ sum' = 0
                     /\ out' = IF s >= Threshold THEN Append(out, FirstStart(in.P) + (k - in.P)) ELSE out
                ELSE sum' = s /\ out' = out
             /\ k' = k + 1
             /\ UNCHANGED <<in, phase, results, vad>>
PatchesDone == /\ phase = "patches" /\ k > Len(vad) /\ phase' = "done"
               /\ UNCHANGED <<in, k, results, vad, sum, out>>
Next == Reject \/ StartAudio \/ GridStep \/ GridDone \/ StartSpeech \/ Chunk \/ ChunksDone
        \/ Smooth \/ SmoothDone \/ PatchStep \/ PatchesDone
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---- properties ----
Ends == <>(phase \in {"done", "short"})
Done == phase = "done"
\* C13
GridIsAsDefined == Done /\ in.mode = "audio" => out = AudioGrid(in.frames, in.P)
\* every patch but the first has two frames behind it, and no further patch would
GridCoversAll == Done /\ in.mode = "audio" =>
  /\ out # <<>> /\ out[1] = FirstStart(in.P)
  /\ \A i \in 1..Len(out) : out[i] + in.P <= in.frames
  /\ \A i \in 2..Len(out) : out[i] = out[i - 1] + in.P /\ out[i] + in.P + 2 <= in.frames
  /\ out[Len(out)] + 2 * in.P + 2 > in.frames
\* C12
SpeechIsAsDefined == Done /\ in.mode # "audio" => out = SpeechGrid(in.frames, in.P, in.loud)
OracleAccepts == Done /\ in.mode # "audio" => SpeechSegmentationOk(out, in.frames, in.P, in.loud, in.loud)
FirstAlways == Done => out # <<>> /\ out[1] = FirstStart(in.P)
\* a patch is left out exactly if it and the two chunks before it are quiet
LeftOut == Done /\ in.mode # "audio" =>
  \A p \in 2..SpeechCount(in.frames, in.P) :
    (FirstStart(in.P) + (p - 1) * in.P \notin Range(out))
      <=> \A c \in ((p - 1) * in.P - 1)..(p * in.P) : ~in.loud[c]
SpeechInside == Done /\ in.mode # "audio" =>
  \A i \in 1..Len(out) : /\ out[i] + in.P <= in.frames /\ (out[i] - FirstStart(in.P)) % in.P = 0
\* more sound never removes a patch
Louder == Done /\ in.mode # "audio" =>
  \A c \in 1..Len(in.loud) : Range(out) \subseteq SpeechStarts(in.frames, in.P, [in.loud EXCEPT ![c] = TRUE])
ShortExactly == /\ phase = "short" => in.frames < FirstStart(in.P) + in.P + (IF in.mode = "audio" THEN 1 ELSE 0)
                /\ Done => in.frames >= FirstStart(in.P) + in.P
=============================================================================
