------------------------------ MODULE ViSQOL ------------------------------
(* One comparison of a reference and a degraded signal, stage by stage, as   *)
(* visqol_manager.rs / visqol.rs perform it.  Every action below is one      *)
(* stage; its arguments are what an observer of the implementation can see.  *)
(* The conditions an action puts on its arguments are obligations, tagged    *)
(* with the property they belong to, so that a trace can be checked against  *)
(* one property at a time; the model checker enforces all of them.           *)
(*                                                                           *)
(* Lengths are in samples, patch starts and offsets in frames.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Segmentation, Matching

CONSTANTS Check,        \* properties whose obligations are enforced
          Legacy,       \* defects of earlier versions (see MCViSQOL)
          Broken(_, _)  \* FALSE, possibly with a report

VARIABLES cfg,          \* [mode, radius, sr, srdeg, nref, ndeg, win, hop, P]
          stage,        \* last stage completed
          ndeg,         \* current length of the degraded signal
          fref, fdeg,   \* frames of the two spectrograms
          idx,          \* starts of the compared patches
          spans,        \* per patch: [rs, re, ds, de, lost] in samples
          out           \* outcome
vars == <<cfg, stage, ndeg, fref, fdeg, idx, spans, out>>

Ob(p, what, c) == IF p \notin Check THEN TRUE ELSE IF c THEN TRUE ELSE Broken(p, what)

None == [kind |-> "none"]
Idle ==
  /\ cfg = [mode |-> "none", radius |-> 0, sr |-> 0, srdeg |-> 0, nref |-> 0, ndeg |-> 0, win |-> 1, hop |-> 1, P |-> 1] /\ stage = "idle" /\ ndeg = 0 /\ fref = 0 /\ fdeg = 0
  /\ idx = <<>> /\ spans = <<>> /\ out = None

AbsN(x) == IF x < 0 THEN -x ELSE x

\* number of frames of a signal that is at least one window long
FramesOf(n, c) == 1 + (n - c.win) \div c.hop
W(c) == Window(c.radius, c.P)

\* -------------------------------------------------------------- Begin ----
Begin(c) ==
  /\ stage \in {"idle", "done"}
  /\ cfg' = c /\ stage' = "begun" /\ ndeg' = c.ndeg
  /\ fref' = 0 /\ fdeg' = 0 /\ idx' = <<>> /\ spans' = <<>> /\ out' = None

\* ------------------------------------------------ errors, with a cause ----
Fail(e) ==
  /\ out' = e /\ stage' = "done"
  /\ UNCHANGED <<cfg, ndeg, fref, fdeg, idx, spans>>

RejectRates ==
  /\ stage = "begun" /\ cfg.sr # cfg.srdeg
  /\ Fail([kind |-> "err", cause |-> "rates", nums |-> <<cfg.sr, cfg.srdeg>>])
RejectEmpty ==
  /\ stage = "begun" /\ cfg.sr = cfg.srdeg /\ (cfg.nref = 0 \/ cfg.ndeg = 0)
  /\ Fail([kind |-> "err", cause |-> "align", nums |-> <<>>])
RejectShortRef ==
  /\ stage = "scaled" /\ cfg.nref < cfg.win
  /\ Fail([kind |-> "err", cause |-> "samples", nums |-> <<cfg.nref, cfg.win>>])
RejectShortDeg ==
  /\ stage = "scaled" /\ cfg.nref >= cfg.win /\ ndeg < cfg.win
  /\ Fail([kind |-> "err", cause |-> "samples", nums |-> <<ndeg, cfg.win>>])
RejectFrames ==
  /\ stage = "prepared" /\ fref < MinFrames(cfg.mode, cfg.P)
  /\ Fail([kind |-> "err", cause |-> "frames", nums |-> <<fref, MinFrames(cfg.mode, cfg.P)>>])
RejectDifferent ==
  /\ stage = "cut" /\ NumPatches(idx, W(cfg), cfg.P, fdeg) = 0
  /\ Fail([kind |-> "err", cause |-> "different", nums |-> <<>>])

\* -------------------------------------------------------- global delay ----
\* shift > 0: that many zeros prepended; shift < 0: that many samples removed
Align(shift, exact) ==
  /\ stage = "begun"
  /\ Ob("C08", "the delay is at most half the reference", AbsN(shift) <= cfg.nref \div 2)
  /\ Ob("C08", "only zeros are prepended or leading samples removed", exact)
  /\ ndeg' = cfg.ndeg + shift
  /\ stage' = "aligned"
  /\ UNCHANGED <<cfg, fref, fdeg, idx, spans, out>>

\* --------------------------------------------------------------- level ----
Scale(okLevel) ==
  /\ stage = "aligned"
  /\ Ob("C09", "the degraded signal is scaled to the level of the reference", okLevel)
  /\ stage' = "scaled"
  /\ UNCHANGED <<cfg, ndeg, fref, fdeg, idx, spans, out>>

\* --------------------------------------------------------- spectrograms ----
BuildSpectrograms(fr, fd) ==
  /\ stage = "scaled"
  /\ Ob("C10", "frames of the reference", cfg.nref >= cfg.win /\ fr = FramesOf(cfg.nref, cfg))
  /\ Ob("C10", "frames of the degraded signal", ndeg >= cfg.win /\ fd = FramesOf(ndeg, cfg))
  /\ fref' = fr /\ fdeg' = fd
  /\ stage' = "built"
  /\ UNCHANGED <<cfg, ndeg, idx, spans, out>>

Prepare(okFloor) ==
  /\ stage = "built"
  /\ Ob("C11", "common noise floor", okFloor)
  /\ stage' = "prepared"
  /\ UNCHANGED <<cfg, ndeg, fref, fdeg, idx, spans, out>>

\* --------------------------------------------------------- segmentation ----
Segment(ix, surely, maybe) ==
  /\ stage = "prepared"
  /\ Ob("C02", "the reference is long enough", fref >= MinFrames(cfg.mode, cfg.P))
  /\ Ob("C13", "audio grid", cfg.mode = "audio" => ix = AudioGrid(fref, cfg.P))
  /\ Ob("C12", "speech segmentation",
        cfg.mode # "audio" => SpeechSegmentationOk(ix, fref, cfg.P, surely, maybe))
  /\ idx' = ix /\ stage' = "segmented"
  /\ UNCHANGED <<cfg, ndeg, fref, fdeg, spans, out>>

CutPatches(n, okContent) ==
  /\ stage = "segmented"
  /\ Ob(IF cfg.mode = "audio" THEN "C13" ELSE "C12", "one patch per start, with the reference's frames",
        n = Len(idx) /\ okContent)
  /\ stage' = "cut"
  /\ UNCHANGED <<cfg, ndeg, fref, fdeg, idx, spans, out>>

\* ------------------------------------------------------------- matching ----
\* positions after each patch (see Matching); lost patches carry the previous
PositionsOf(offs) ==      \* offs[i]: offset or -1 for a lost patch
  FoldLeft(LAMBDA acc, o : Append(acc, IF o >= 0 THEN o ELSE IF acc = <<>> THEN -1 ELSE acc[Len(acc)]), <<>>, offs)
Increasing(offs) ==
  \A i, j \in 1..Len(offs) : i < j /\ offs[i] >= 0 /\ offs[j] >= 0 => offs[i] < offs[j]

MatchPatches(offs, sp, okOptimal, okLost) ==
  /\ stage = "cut"
  /\ Ob("C15", "exactly the unreachable trailing patches are dropped",
        Len(offs) = NumPatches(idx, W(cfg), cfg.P, fdeg) /\ Len(offs) > 0)
  /\ Ob("C15", "patches keep their order and reference times",
        \A i \in 1..Len(offs) : i <= Len(idx) => sp[i].rs = idx[i] * cfg.hop /\ sp[i].re = (idx[i] + cfg.P) * cfg.hop)
  /\ Ob("C14", "offsets lie in their windows",
        \A i \in 1..Len(offs) : i <= Len(idx) /\ offs[i] >= 0 => InWindow(idx, i, W(cfg), fdeg, offs[i]))
  /\ Ob("C14", "offsets are strictly increasing", Increasing(offs))
  /\ Ob("C14", "largest total similarity", okOptimal)
  /\ Ob("C15", "lost patches are reported as such", okLost)
  /\ spans' = sp /\ stage' = "matched"
  /\ UNCHANGED <<cfg, ndeg, fref, fdeg, idx, out>>

\* ----------------------------------------------------- fine realignment ----
\* b: span before, a: span after; slack: sampling of the times
MovedOk(b, a, slack) ==
  IF b.lost THEN a.lost /\ a.rs = b.rs /\ a.re = b.re
  ELSE LET dr == a.rs - b.rs
           dd == a.ds - b.ds
           m == MaxOf(dr, dd)
           half == (cfg.P * cfg.hop) \div 2
       IN /\ ~a.lost
          /\ dr >= 0 /\ dd >= 0 /\ (dr = 0 \/ dd = 0) /\ m <= half
          /\ a.re - a.rs = a.de - a.ds
          /\ AbsN((a.re - a.rs) - (cfg.P * cfg.hop - m)) <= slack
Refine(sp, slack, okSims) ==
  /\ stage = "matched"
  /\ Ob("C16", "one refined patch per matched patch", Len(sp) = Len(spans))
  /\ Ob("C16", "at most one start moves, both spans shrink alike",
        \A i \in 1..Len(spans) : i <= Len(sp) => MovedOk(spans[i], sp[i], slack))
  /\ Ob("C16", "the better similarity is reported", okSims)
  /\ spans' = sp /\ stage' = "refined"
  /\ UNCHANGED <<cfg, ndeg, fref, fdeg, idx, out>>

Finish(o) ==
  /\ stage = "refined" /\ out' = o /\ stage' = "done"
  /\ UNCHANGED <<cfg, ndeg, fref, fdeg, idx, spans>>
=============================================================================
