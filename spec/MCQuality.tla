----------------------------- MODULE MCQuality -----------------------------
(* The score as a function of the mean similarity, computed stage by stage   *)
(* as the implementation does it, for every similarity on a grid.            *)
EXTENDS Quality
CONSTANTS FROM, TO, STEP,      \* similarities in 1e-7
          MODES, Legacy
Low == -1000000

VARIABLES mode, m, stage, q, score, before
vars == <<mode, m, stage, q, score, before>>
\* fullband: all 32 bands equally similar
Flat == [i \in 1..32 |-> m]
Init == mode \in MODES /\ m = FROM /\ stage = "fit" /\ q = BZero /\ score = 0 /\ before = 1000000
Predict == /\ stage = "fit"
           /\ q' = IF mode = "audio" THEN B(SvrScore(Flat)) ELSE FitOf(Sim(m))
           /\ stage' = (IF mode = "scaled" \/ ("twice" \in Legacy /\ mode # "audio") THEN "scale" ELSE "clamp")
           /\ UNCHANGED <<mode, m, score, before>>
Stretch == /\ stage = "scale" /\ q' = Shr(Mul(q, FitS), K) /\ stage' = "clamp" /\ UNCHANGED <<mode, m, score, before>>
Bound == /\ stage = "clamp"
         /\ score' = (IF mode = "audio" THEN ToInt(q) ELSE ToMicro(ClampF(q)))
         /\ stage' = "cutoff" /\ UNCHANGED <<mode, m, q, before>>
Cut == IF "le" \in Legacy THEN m <= Cutoff ELSE IF "nocut" \in Legacy THEN FALSE ELSE m < Cutoff
Extreme == /\ stage = "cutoff" /\ score' = (IF Cut THEN 1000000 ELSE score) /\ stage' = "done" /\ UNCHANGED <<mode, m, q, before>>
More == /\ stage = "done" /\ m + STEP <= TO
        /\ m' = m + STEP /\ before' = score /\ stage' = "fit" /\ q' = BZero /\ score' = 0 /\ UNCHANGED mode
Next == Predict \/ Stretch \/ Bound \/ Extreme \/ More
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == stage = "done"
InRange == Done => score >= 1000000 /\ score <= 5000000
Monotone == Done /\ mode # "audio" => before <= score
Dissimilar == Done /\ m < Cutoff => score = 1000000
AsDefined == Done /\ m >= Cutoff => score = IF mode = "audio" THEN SvrScore(Flat) ELSE SpeechScore(m, mode = "scaled")
\* the scores of identical signals
Top == Done /\ m = One => CASE mode = "scaled" -> Clip(score - 4999966) <= 2 [] mode = "unscaled" -> Clip(score - 4155762) <= 2 [] OTHER -> Clip(score - 4732100) <= 200
\* scaling only raises scores
ScalingRaises == Done /\ m >= Cutoff /\ mode = "scaled" => SpeechScore(m, FALSE) <= score
Everything == <>(Done /\ m + STEP > TO)
=============================================================================
