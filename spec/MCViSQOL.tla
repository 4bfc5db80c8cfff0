----------------------------- MODULE MCViSQOL -----------------------------
(* Every comparison of small signals: all lengths, delays, activity patterns,*)
(* radii and legal matchings, with the real stage structure and small        *)
(* windows.  Actions that would index outside their data lead to "crash".    *)
EXTENDS ViSQOL
CONSTANTS NREF, NDEG, RADIUS, MODES, WIN, HOP, PS, PA, BADRATE

NeverBroken(p, what) == FALSE
Rates == IF BADRATE THEN {1, 2} ELSE {1}
PatchFor(m) == IF m = "audio" THEN PA ELSE PS

StartAny ==
  \E m \in MODES, nr \in NREF, nd \in NDEG, r \in RADIUS, s2 \in Rates :
    stage = "idle" /\ Begin([mode |-> m, radius |-> r, sr |-> 1, srdeg |-> s2, nref |-> nr, ndeg |-> nd,
                             win |-> WIN, hop |-> HOP, P |-> PatchFor(m)])
Crash(why) == Fail([kind |-> "crash", cause |-> why, nums |-> <<>>])

AlignAny ==
  /\ stage = "begun" /\ cfg.sr = cfg.srdeg /\ cfg.nref > 0 /\ cfg.ndeg > 0
  /\ \E s \in (-(cfg.nref \div 2))..(cfg.nref \div 2) :
       /\ s > -cfg.ndeg         \* a lag at which the signals do not overlap has no correlation
       /\ Align(s, TRUE)
BuildAny == /\ stage = "scaled" /\ cfg.nref >= cfg.win /\ ndeg >= cfg.win
            /\ BuildSpectrograms(FramesOf(cfg.nref, cfg), FramesOf(ndeg, cfg))

\* earlier versions computed the number of speech patches without a check
LegacySegment ==
  /\ stage = "prepared" /\ "shortref" \in Legacy /\ cfg.mode # "audio"
  /\ fref < FirstStart(cfg.P) + cfg.P
  /\ Crash("no voice activity blocks")
\* a patch is quiet, loud in its first or last chunk, or loud throughout
Talking(how, c) == (how = 1 /\ c = 1) \/ (how = 2 /\ c = cfg.P) \/ how = 3
SegmentAny ==
  /\ stage = "prepared" /\ fref >= MinFrames(cfg.mode, cfg.P)
  /\ IF cfg.mode = "audio"
     THEN Segment(AudioGrid(fref, cfg.P), <<>>, <<>>)
     ELSE \E talk \in [1..SpeechCount(fref, cfg.P) -> 0..3] :
            LET loud == [k \in 1..(SpeechCount(fref, cfg.P) * cfg.P) |-> Talking(talk[1 + ((k - 1) \div cfg.P)], 1 + ((k - 1) % cfg.P))]
            IN Segment(SpeechGrid(fref, cfg.P, loud), loud, loud)

\* a patch or an offset outside its spectrogram
CutAny ==
  /\ stage = "segmented"
  /\ IF \E i \in 1..Len(idx) : idx[i] < 0 \/ idx[i] + cfg.P > fref
     THEN Crash("patch outside the reference")
     ELSE CutPatches(Len(idx), TRUE)

Span(i, o) == [rs |-> idx[i] * cfg.hop, re |-> (idx[i] + cfg.P) * cfg.hop,
               ds |-> IF o < 0 THEN 0 ELSE o * cfg.hop, de |-> IF o < 0 THEN 0 ELSE (o + cfg.P) * cfg.hop, lost |-> o < 0]
KeptPatches == IF "nodrop" \in Legacy
               THEN CHOOSE n \in 0..Len(idx) : /\ \A k \in (n + 1)..Len(idx) : idx[k] - (cfg.P \div 2) > fdeg
                                               /\ n > 0 => idx[n] - (cfg.P \div 2) <= fdeg
               ELSE NumPatches(idx, W(cfg), cfg.P, fdeg)
\* earlier versions subtracted without saturation
LegacyUnderflow ==
  /\ stage = "cut" /\ "underflow" \in Legacy
  /\ \E i \in 1..Len(idx) : idx[i] < cfg.P \div 2 /\ \A k \in (i + 1)..Len(idx) : idx[k] - (cfg.P \div 2) > fdeg
  /\ Crash("subtraction underflow while dropping patches")
MatchAny ==
  /\ stage = "cut" /\ KeptPatches > 0
  /\ LET n == KeptPatches IN
     IF \E i \in 1..n : idx[i] - W(cfg) > fdeg - 1
     THEN Crash("window begins after the degraded spectrogram")
     ELSE \E pos \in [1..n -> 0..(fdeg - 1)] :
            /\ LegalPositions(pos, idx, W(cfg), fdeg)
            /\ LET offs == [i \in 1..n |-> IF Matched(pos, i) THEN pos[i] ELSE -1]
               IN MatchPatches(offs, [i \in 1..n |-> Span(i, offs[i])], TRUE, TRUE)

\* realignment of the audio of a patch pair: every lag up to half of it
Realign(sp, lag) ==
  IF sp.lost THEN sp
  ELSE LET len == sp.re - sp.rs - AbsN(lag)
       IN IF lag > 0 THEN [sp EXCEPT !.rs = @ + lag, !.re = sp.rs + lag + len, !.de = sp.ds + len]
          ELSE [sp EXCEPT !.ds = @ - lag, !.de = sp.ds - lag + len, !.re = sp.rs + len]
RefineAny ==
  /\ stage = "matched"
  /\ IF \E i \in 1..Len(spans) : ~spans[i].lost /\ cfg.P * cfg.hop - (cfg.P * cfg.hop) \div 2 < cfg.win
     THEN Crash("realigned patch shorter than a window")
     ELSE \E lags \in [1..Len(spans) -> {0, 1, -((cfg.P * cfg.hop) \div 2)}] :
            Refine([i \in 1..Len(spans) |-> Realign(spans[i], lags[i])], 0, TRUE)

Next ==
  \/ StartAny \/ RejectRates \/ RejectEmpty \/ AlignAny \/ (stage = "aligned" /\ Scale(TRUE))
  \/ RejectShortRef \/ RejectShortDeg \/ BuildAny \/ (stage = "built" /\ Prepare(TRUE))
  \/ LegacySegment \/ (RejectFrames /\ ~("shortref" \in Legacy /\ cfg.mode # "audio")) \/ SegmentAny \/ CutAny
  \/ LegacyUnderflow \/ RejectDifferent \/ MatchAny \/ RefineAny
  \/ Finish([kind |-> "ok", patches |-> Len(spans)])
Spec == Idle /\ [][Next]_vars /\ WF_vars(Next)

\* ---- properties ----
\* C01
NoCrash == out.kind # "crash"
Complete == out.kind = "ok" => out.patches >= 1 /\ out.patches = Len(spans)
Ends == <>(stage = "done")
NotStuck == stage # "done" => ENABLED Next
\* C02: an error if and only if one of the documented faults is present
Faulty == \/ cfg.sr # cfg.srdeg \/ cfg.nref < cfg.win \/ cfg.ndeg = 0
          \/ (stage = "done" /\ ndeg < cfg.win)
          \/ (cfg.nref >= cfg.win /\ FramesOf(cfg.nref, cfg) < MinFrames(cfg.mode, cfg.P))
ErrorsAreJustified ==
  out.kind = "err" => \/ Faulty
                      \/ (out.cause = "different" /\ cfg.radius = 0 /\ fdeg <= FirstStart(cfg.P))
FaultsAreReported == stage = "done" /\ Faulty => out.kind = "err"
\* C08: removing the delay never removes more than half the reference
AlignedLength == stage \in {"aligned", "scaled"} => AbsN(ndeg - cfg.ndeg) <= cfg.nref \div 2
\* C12 C13: patches lie inside the reference, do not overlap, the first is always compared in speech mode
PatchesInside == stage \in {"segmented", "cut", "matched", "refined"} =>
  /\ Len(idx) >= 1 /\ idx[1] = FirstStart(cfg.P)
  /\ \A i \in 1..Len(idx) : idx[i] + cfg.P <= fref
  /\ \A i \in 2..Len(idx) : idx[i] - idx[i - 1] >= cfg.P
\* C14 C15 C16 on the reported spans
Ordered == stage \in {"matched", "refined"} =>
  \A i, j \in 1..Len(spans) : i < j =>
     /\ spans[i].rs < spans[j].rs
     /\ (stage = "matched" /\ ~spans[i].lost /\ ~spans[j].lost => spans[i].ds < spans[j].ds)
EqualDurations == stage \in {"matched", "refined"} =>
  \A i \in 1..Len(spans) : ~spans[i].lost => spans[i].re - spans[i].rs = spans[i].de - spans[i].ds /\ spans[i].re > spans[i].rs
DroppedSuffix == stage = "matched" => \A i \in (Len(spans) + 1)..Len(idx) : Unreachable(idx, i, W(cfg), cfg.P, fdeg)
FirstMatched == stage = "matched" => ~spans[1].lost
=============================================================================
