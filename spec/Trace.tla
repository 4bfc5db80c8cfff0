------------------------------- MODULE Trace -------------------------------
(* Traces recorded from the implementation, replayed on the specification.   *)
(* Every event is one action; a comparison's events drive the actions of     *)
(* ViSQOL, single steps of the algorithm are compared with the operators     *)
(* that define them.  CONSTANT Check says which property is being decided.   *)
EXTENDS ViSQOL, Observe, Quality, Aggregates, Json, IOUtils

D == INSTANCE Delay
F == INSTANCE NoiseFloor
N == INSTANCE Nsim
Wv == INSTANCE Wav

TraceFile == IOEnv.TRACE_FILE
Log == ndJsonDeserialize(TraceFile)

VARIABLES l,            \* next line
          seen,         \* earlier results by group: results that must be equal
          matrix,       \* similarities of patches and offsets, when recorded
          scores,       \* similarities before refinement
          fresh         \* realigned similarities of the current comparison
tvars == <<vars, l, seen, matrix, scores, fresh>>

e == Log[l]
Is(name) == l <= Len(Log) /\ e.ev = name /\ l' = l + 1
Rest == UNCHANGED <<seen, matrix, scores, fresh>>

\* An obligation; a broken one is reported and stops the trace here.
Report(p, what) ==
  PrintT("REJECT " \o p \o " line " \o ToString(l) \o " case " \o ToString(e["case"]) \o " : " \o what) /\ FALSE
Must(p, what, c) == IF p \notin Check THEN TRUE ELSE IF c THEN TRUE ELSE Report(p, what)

Bands == IF cfg.mode = "audio" THEN 32 ELSE 21
SegId == IF cfg.mode = "audio" THEN "C13" ELSE "C12"

\* ---------------------------------------------------------------- Begin ----
TBegin ==
  /\ Is("Begin")
  /\ Begin([mode |-> e.mode, radius |-> e.radius, sr |-> e.sr, srdeg |-> e.srdeg, nref |-> e.nref, ndeg |-> e.ndeg,
            win |-> (8 * e.sr + 50) \div 100, hop |-> ((8 * e.sr + 50) \div 100) \div 4,
            P |-> IF e.mode = "audio" THEN 20 ELSE 30,
            power |-> e.power, same |-> e.same, silentdeg |-> e.silentdeg, silentref |-> e.silentref, shift |-> e.shift, want |-> e.want])
  /\ matrix' = <<>> /\ scores' = <<>> /\ fresh' = <<>>
  /\ UNCHANGED seen

\* chunk powers within rounding of the threshold may count either way
Threshold == 25000000
Slack == 30000
Surely(power) == [k \in 1..Len(power) |-> power[k] >= Threshold + Slack]
Maybe(power) == [k \in 1..Len(power) |-> power[k] >= Threshold - Slack]

\* the correlation at the delay is the largest, up to rounding (1e-6), or nothing was
\* removed because the best delay is too large
BestDelay(x, shift) == x.gap <= 1000 \/ (shift = 0 /\ x.far)
TAligned ==
  /\ Is("Aligned")
  /\ Must("C08", "an exactly known delay is found", cfg.shift = 99999999 \/ e.shift = cfg.shift)
  /\ Must("C08", "no delay correlates better than the one removed", BestDelay(e, e.shift))
  /\ Align(e.shift, e.exact)
  /\ Rest

TScaled ==
  /\ Is("Scaled")
  /\ Scale(/\ e.prop
           /\ IF e.silent THEN e.zero ELSE IF e.refsilent THEN e.zero ELSE Close(e.rmsppb, 0, 50))
  /\ Rest

TBuilt ==
  /\ Is("Built")
  /\ Must("C10", "frames depend only on their own samples", e["local"] <= 100)
  /\ Must("C10", "one row per band, non-negative finite values", e.bands = Bands /\ e.bandsdeg = Bands /\ e.sane)
  /\ BuildSpectrograms(e.fref, e.fdeg)
  /\ Rest

FloorOk(a, b) == \A i \in 1..Len(a) : AllClose(a[i], b[i], 4)
TPrepared ==
  /\ Is("Prepared")
  /\ Prepare(/\ e.finite /\ Close(e.min, 0, 1)
             /\ ("inr" \in DOMAIN e =>
                  LET f == F!Floored(e.inr, e.ind, 10000)
                  IN Len(e.outr) = Len(f.r) /\ Len(e.outd) = Len(f.d) /\ FloorOk(e.outr, f.r) /\ FloorOk(e.outd, f.d)))
  /\ Rest

TSegmented ==
  /\ Is("Segmented")
  /\ Segment(e.idx, Surely(cfg.power), Maybe(cfg.power))
  /\ Rest

TCut ==
  /\ Is("Cut")
  /\ CutPatches(e.n, e.same /\ \A i \in 1..Len(e.cols) : e.cols[i] = cfg.P)
  /\ matrix' = IF "s" \in DOMAIN e THEN e.s ELSE <<>>
  /\ UNCHANGED <<seen, scores, fresh>>

SpanOf(p) == [rs |-> Samples(p.rs, cfg.sr), re |-> Samples(p.re, cfg.sr), ds |-> Samples(p.ds, cfg.sr), de |-> Samples(p.de, cfg.sr), lost |-> IsLost(p)]
OffsetOf(p) == IF IsLost(p) THEN -1 ELSE RoundDiv(Samples(p.ds, cfg.sr), cfg.hop)
LostOk(p) == IsLost(p) => p.sim = 0 /\ (\A b \in 1..Len(p.means) : p.means[b] = 0)
MatchOk(ps) ==
  LET offs == [i \in 1..Len(ps) |-> OffsetOf(ps[i])]
      pos == PositionsOf(offs)
      n == Len(ps)
  IN IF matrix = <<>> \/ n > Len(matrix) THEN TRUE
     ELSE /\ LegalPositions(pos, idx, W(cfg), fdeg) /\ ~IsLost(ps[1])
          /\ Clip(Total(pos, matrix) - OptimalTotal(matrix, idx, n, W(cfg), fdeg)) <= n + 2
          /\ \A i \in 1..n : ~IsLost(ps[i]) => Close(ps[i].sim, matrix[i][offs[i] + 1], 3)
Grid(ps) ==   \* matched pieces start on a frame and are as long as a patch
  \A i \in 1..Len(ps) : IsLost(ps[i]) \/
     /\ SameTime(ps[i].ds, OffsetOf(ps[i]) * cfg.hop, cfg.sr)
     /\ SameTime(ps[i].de, (OffsetOf(ps[i]) + cfg.P) * cfg.hop, cfg.sr)
TMatched ==
  /\ Is("Matched")
  /\ Must("C14", "offsets are whole frames and whole patches", Grid(e.p))
  /\ MatchPatches([i \in 1..Len(e.p) |-> OffsetOf(e.p[i])], [i \in 1..Len(e.p) |-> SpanOf(e.p[i])], MatchOk(e.p),
                  (\A i \in 1..Len(e.p) : LostOk(e.p[i])) /\ ~IsLost(e.p[1]))
  /\ scores' = e.p
  /\ UNCHANGED <<seen, matrix, fresh>>

TRealigned ==
  /\ Is("Realigned") /\ stage = "matched"
  /\ LET full == cfg.P * cfg.hop IN
     /\ Must("C08", "no delay of the patch correlates better", BestDelay(e, e.lag))
     /\ Must("C16", "lost patches are left alone", e.i <= Len(spans) => ~spans[e.i].lost)
     /\ Must("C16", "the audio of the whole patch is realigned", Clip(e.nref - full) <= 1 /\ Clip(e.ndeg - full) <= 1)
     /\ Must("C16", "the audio realigned is that of the matched spans", e.refcut /\ e.degcut)
     /\ Must("C16", "both realigned pieces are equally long", e.aref = e.adeg)
     /\ Must("C16", "a lag of at most half the patch is removed", Clip(e.lag) <= e.nref \div 2 /\ Clip(e.aref - (full - Clip(e.lag))) <= 2)
     /\ Must("C16", "the realigned pieces are parts of the patch audio",
             IF e.lag > 0 /\ e.nref < e.ndeg + e.lag THEN e.reflag /\ e.deghead    \* the zeros in front are cut from both
             ELSE e.refhead /\ e.degshift)
  /\ fresh' = Append(fresh, e)
  /\ UNCHANGED <<vars, seen, matrix, scores>>

\* what the refinement must report for patch i, given its realigned piece f
SamePatch(a, b) == a.sim = b.sim /\ a.rs = b.rs /\ a.re = b.re /\ a.ds = b.ds /\ a.de = b.de /\ a.means = b.means
Realignments(i) == {k \in 1..Len(fresh) : fresh[k].i = i}
RefinedOk(new, i, from) ==
  LET old == scores[i] IN
  IF IsLost(old) THEN Realignments(i) = {} /\ SamePatch(new, old) /\ from = "old"
  ELSE IF Cardinality(Realignments(i)) # 1 THEN FALSE
  ELSE LET f == fresh[CHOOSE k \in Realignments(i) : TRUE]
           b == SpanOf(old) a == SpanOf(new)
           dr == IF f.lag > 0 THEN f.lag ELSE 0
           dd == IF f.lag > 0 THEN 0 ELSE -f.lag
           moved == /\ new.sim = f.sim
                    /\ Clip(a.rs - b.rs - dr) <= 1 /\ Clip(a.ds - b.ds - dd) <= 1
                    /\ Clip(a.re - a.rs - f.aref) <= 1 /\ Clip(a.de - a.ds - f.adeg) <= 1
           kept == SamePatch(new, old)
       IN /\ new.sim >= old.sim
          \* f.cmp: sign of the difference of the similarities themselves
          /\ IF f.cmp < 0 THEN kept /\ from \in {"old", "both"} ELSE moved /\ from \in {"new", "both"}
TRefined ==
  /\ Is("Refined")
  /\ Refine([i \in 1..Len(e.p) |-> SpanOf(e.p[i])], 2,
            Len(e.p) = Len(scores) /\ \A i \in 1..Len(e.p) : RefinedOk(e.p[i], i, e.from[i]))
  /\ Rest

\* ------------------------------------------------------------------ End ----
\* errors that the inputs justify; length of the aligned degraded signal is
\* known only when it was observed
Shrunk == IF stage \in {"begun"} THEN (MaxOf(0, cfg.ndeg - (cfg.nref \div 2)))..(cfg.ndeg + (cfg.nref \div 2)) ELSE {ndeg}
DegRange == IF stage = "begun" THEN [lo |-> cfg.ndeg - (cfg.nref \div 2), hi |-> cfg.ndeg + (cfg.nref \div 2)] ELSE [lo |-> ndeg, hi |-> ndeg]
RefFrames == IF cfg.nref < cfg.win THEN 0 ELSE FramesOf(cfg.nref, cfg)
MinFr == MinFrames(cfg.mode, cfg.P)
ErrorOk(x) ==
  \/ x.kind = "rates" /\ cfg.sr # cfg.srdeg /\ x.nums = <<cfg.sr, cfg.srdeg>>
  \/ /\ cfg.sr = cfg.srdeg
     /\ \/ x.kind \in {"align", "samples"} /\ (cfg.nref = 0 \/ cfg.ndeg = 0)
        \/ x.kind = "samples" /\ cfg.nref < cfg.win /\ x.nums = <<cfg.nref, cfg.win>>
        \/ /\ x.kind = "samples" /\ Len(x.nums) = 2 /\ x.nums[2] = cfg.win
           /\ x.nums[1] < cfg.win /\ DegRange.lo <= x.nums[1] /\ x.nums[1] <= DegRange.hi
        \/ x.kind = "frames" /\ cfg.nref >= cfg.win /\ RefFrames < MinFr /\ x.nums = <<RefFrames, MinFr>>
        \/ x.kind = "different" /\ cfg.radius = 0 /\ RefFrames >= MinFr
           /\ DegRange.lo < FirstStart(cfg.P) * cfg.hop + cfg.win
\* inputs for which an error is the only possible outcome, or impossible
MustFail == \/ cfg.sr # cfg.srdeg \/ cfg.nref < cfg.win \/ RefFrames < MinFr \/ cfg.ndeg = 0
            \/ DegRange.hi < cfg.win
MustScore == /\ cfg.sr = cfg.srdeg /\ cfg.nref >= cfg.win /\ RefFrames >= MinFr
             /\ DegRange.lo >= cfg.win /\ (cfg.radius > 0 \/ DegRange.lo >= FirstStart(cfg.P) * cfg.hop + cfg.win)

\* patches as seen in the result alone
BaseOf(p) ==   \* the reference start before refinement
  LET s == Samples(p.rs, cfg.sr)
      k == (s + 1 - FirstStart(cfg.P) * cfg.hop) \div (cfg.P * cfg.hop)
  IN FirstStart(cfg.P) + k * cfg.P
PatchTimesOk(p) ==
  LET s == SpanOf(p)
      b == BaseOf(p)
      full == cfg.P * cfg.hop
      dr == s.rs - b * cfg.hop
      len == s.re - s.rs
      off == IF s.lost THEN 0 ELSE (s.ds + 1) \div cfg.hop
  IN /\ dr >= -1
     /\ IF s.lost THEN SameTime(p.rs, b * cfg.hop, cfg.sr) /\ Clip(len - full) <= 1
        ELSE /\ Clip(len - (s.de - s.ds)) <= 1
             /\ len <= full + 1 /\ len >= full - (full \div 2) - 2
             /\ dr <= (full \div 2) + 1
             /\ (dr > 1 => Clip(len + dr - full) <= 2)
             /\ (dr <= 1 => (s.ds + (len - full) + 2) % cfg.hop <= 4)
GridStarts == IF cfg.mode = "audio" THEN AudioGrid(RefFrames, cfg.P) ELSE <<>>
ReachOk(n, all, fd) == n = NumPatches(all, W(cfg), cfg.P, fd)
DegFrames == IF stage = "refined" THEN fdeg ELSE -1
StartsOk(r) ==   \* the compared patches, as reported
  LET b == [i \in 1..Len(r.patches) |-> BaseOf(r.patches[i])]
      n == Len(b)
  IN IF cfg.mode = "audio"
     THEN n <= Len(GridStarts) /\ b = SubSeq(GridStarts, 1, n)
     ELSE LET S == SpeechStarts(RefFrames, cfg.P, Surely(cfg.power))
              M == SpeechStarts(RefFrames, cfg.P, Maybe(cfg.power))
          IN /\ StrictlyIncreasing(b) /\ Range(b) \subseteq M
             /\ \A s \in S : s <= b[n] => s \in Range(b)
\* nothing that is certainly reachable is missing at the end
FloorFrames == IF DegRange.lo < cfg.win THEN 0 ELSE FramesOf(DegRange.lo, cfg)
Reachable(s) == s - (cfg.P \div 2) <= FloorFrames /\ s - W(cfg) < FloorFrames
NoneMissing(r) ==
  LET b == {BaseOf(r.patches[i]) : i \in 1..Len(r.patches)}
      need == IF cfg.mode = "audio" THEN Range(GridStarts) ELSE SpeechStarts(RefFrames, cfg.P, Surely(cfg.power))
  IN \A s \in need : Reachable(s) => s \in b
OrderedOffsets(r) ==   \* before refinement offsets strictly increase; refinement moves less than half a patch
  \A i, j \in 1..Len(r.patches) :
    (i < j /\ ~IsLost(r.patches[i]) /\ ~IsLost(r.patches[j])) =>
      r.patches[i].ds - r.patches[j].ds < Micros((cfg.P * cfg.hop) \div 2, cfg.sr)

Scaled == cfg.mode # "unscaled"
ScoreOk(r) ==
  /\ 1000000 <= r.mos /\ r.mos <= 5000000
  /\ (r.vnsim < Cutoff - 1 => r.mosone)
  /\ (r.vnsim > Cutoff + 1 =>
        IF cfg.mode = "audio" THEN (SvmFile # "" => Clip(r.mos - SvrScore(r.fvnsim)) <= 1500)
        ELSE Clip(r.mos - SpeechScore(r.vnsim, Scaled)) <= 6)
TopScore == IF cfg.mode = "audio" THEN (IF SvmFile = "" THEN 4732100 ELSE SvrScore([b \in 1..32 |-> One])) ELSE SpeechScore(One, Scaled)
OwnOk(r) == \A i \in 1..Len(r.patches) : LET p == r.patches[i] IN Close(p.rs, p.ds, 2) /\ Close(p.re, p.de, 2)
PerfectOk(r) ==
  /\ \A i \in 1..Len(r.patches) :
       LET p == r.patches[i] IN
       /\ Close(p.sim, One, 20)
       /\ \A b \in 1..Len(p.means) : Close(p.means[b], One, 20) /\ Close(p.stds[b], 0, 100)
  /\ Close(r.mos, TopScore, IF cfg.mode = "audio" THEN 1500 ELSE 10)
  /\ \A b \in 1..Len(r.fstd) : Close(r.fstd[b], 0, 2000)
SimilarityBounded(r) ==
  \A i \in 1..Len(r.patches) : r.patches[i].sim <= One + 1 /\ \A b \in 1..Len(r.patches[i].means) : r.patches[i].means[b] <= One + 1

\* results that must coincide
Want(k, d) == IF k \in DOMAIN cfg.want THEN cfg.want[k] ELSE d
SameResult(a, b) ==
  /\ Close(a.mos, b.mos, 20) /\ AllClose(a.fvnsim, b.fvnsim, 20) /\ AllClose(a.fstd, b.fstd, 200) /\ AllClose(a.fen, b.fen, 20)
  /\ Len(a.patches) = Len(b.patches)
  /\ \A i \in 1..Len(a.patches) :
       LET p == a.patches[i] q == b.patches[i] IN
       Close(p.sim, q.sim, 20) /\ Close(p.rs, q.rs, 2) /\ Close(p.ds, q.ds, 2) /\ Close(p.de, q.de, 2)

TEndOk ==
  /\ Is("End") /\ e.out = "ok"
  /\ Must("C02", "no score for unusable inputs", ~MustFail)
  /\ Must("C01", "a complete result", WellFormed(e.res, Bands) /\ AllNumbersFinite(e.res))
  /\ LET r == e.res IN
     Usable(r, Bands) =>
       /\ Must("C05", "no similarity above 1", SimilarityBounded(r))
       /\ Must("C05", "a perfect result for identical signals", cfg.same => PerfectOk(r))
       /\ Must("C05", "every patch of a copy at its own position", cfg.same /\ Want("own", FALSE) => OwnOk(r))
       /\ Must("C06", "the score is the mapped similarity", ScoreOk(r))
       /\ Must("C07", "overall vectors are means of the patches",
               \A b \in 1..Bands : MeanOk(Column(r.patches, "means", b), r.fvnsim[b], 2) /\ MeanOk(Column(r.patches, "en", b), r.fen[b], 2))
       /\ Must("C07", "overall similarity is the mean of the bands", MeanOk(r.fvnsim, r.vnsim, 2))
       /\ Must("C07", "patch similarity is the mean of its bands", \A i \in 1..Len(r.patches) : PatchSimilarityOk(r.patches[i]))
       /\ Must("C07", "pooled deviation", DeviationOk(r, cfg.sr, cfg.hop))
       /\ Must("C07", "ascending centre frequencies", CentersOk(r.centers))
       /\ Must("C09", "the same result at any level",
               Want("group", "") # "" /\ Want("group", "") \in DOMAIN seen => SameResult(seen[Want("group", "")], r))
       /\ Must(SegId, "reported patches are the segmentation's", StartsOk(r))
       /\ Must(SegId, "no reachable patch is left out", NoneMissing(r))
       /\ Must("C15", "no reachable patch is left out", NoneMissing(r))
       /\ Must("C15", "lost patches count as zero", \A i \in 1..Len(r.patches) : LostOk(r.patches[i]))
       /\ Must("C15", "the first patch is always matched", ~IsLost(r.patches[1]))
       /\ Must("C14", "matches are in order", OrderedOffsets(r))
       /\ Must("C16", "patch times", \A i \in 1..Len(r.patches) : PatchTimesOk(r.patches[i]))
       /\ Must("C16", "reported patches are the refined ones", stage = "refined" =>
               Len(r.patches) = Len(spans) /\ \A i \in 1..Len(spans) : SpanOf(r.patches[i]) = spans[i])
       /\ Must("C08", "a removed delay leaves the content in place",
               Want("still", FALSE) => \A i \in 1..Len(r.patches) : Close(r.patches[i].rs, r.patches[i].ds, 2) /\ Close(r.patches[i].sim, One, 100))
  /\ LET g == Want("group", "") IN
     seen' = IF g = "" \/ ~Usable(e.res, Bands) \/ g \in DOMAIN seen THEN seen ELSE (g :> e.res) @@ seen
  /\ stage' = "done" /\ out' = [kind |-> "ok", patches |-> Len(e.res.patches)]
  /\ UNCHANGED <<cfg, ndeg, fref, fdeg, idx, spans, matrix, scores, fresh>>

TEndErr ==
  /\ Is("End") /\ e.out = "err"
  /\ Must("C02", "usable inputs yield a score", ~MustScore)
  /\ Must("C02", "the error names the cause", ErrorOk(e.err))
  /\ Must("C05", "identical usable signals yield a score", ~(cfg.same /\ MustScore))
  /\ stage' = "done" /\ out' = [kind |-> "err", cause |-> e.err.kind, nums |-> e.err.nums]
  /\ UNCHANGED <<cfg, ndeg, fref, fdeg, idx, spans, seen, matrix, scores, fresh>>

TEndPanic ==
  /\ Is("End") /\ e.out = "panic"
  /\ Must("C01", "no crash", FALSE)
  /\ Must("C02", "an error or a score", FALSE)
  /\ Must("C05", "identical usable signals yield a score", ~(cfg.same /\ MustScore))
  /\ stage' = "done" /\ out' = [kind |-> "crash"]
  /\ UNCHANGED <<cfg, ndeg, fref, fdeg, idx, spans, seen, matrix, scores, fresh>>
THang ==
  /\ Is("Hang")            \* it does not end, or ends the whole process
  /\ Must("C01", "every comparison ends", FALSE)
  /\ Must("C02", "every comparison ends", e.unit)
  /\ \A p \in Check : Must(p, "the step ends", ~e.unit)
  /\ stage' = "done" /\ UNCHANGED <<cfg, ndeg, fref, fdeg, idx, spans, out, seen, matrix, scores, fresh>>

\* --------------------------------------------------------- single steps ----
Unit(name, p) == Is(name) /\ Must(p, "the step does not crash", e.out # "panic") /\ Rest /\ UNCHANGED vars
TSkip == Is("Skip") /\ Rest /\ UNCHANGED vars

TLag ==
  /\ Unit("Lag", "C08")
  /\ Must("C08", "the best lag", e.out = "ok" => e.lag \in D!BestLags(e.a, e.b))
TGalign ==
  /\ Unit("Galign", "C08")
  /\ Must("C08", "alignment", e.out = "ok" =>
          [lag |-> e.lag, deg |-> e.res] \in D!Aligned(e.a, e.b) /\ e.rate = e.sr /\ e.keep)
  /\ Must("C08", "only empty signals cannot be aligned", e.out = "none" => e.a = <<>> \/ e.b = <<>>)
TAtrunc ==
  /\ Unit("Atrunc", "C16")
  /\ Must("C16", "aligned and cut to the common part", e.out = "ok" => [lag |-> e.lag, x |-> e.x, y |-> e.y] \in D!Truncated(e.a, e.b))

ChunkLoud(c, unit) == LET s == SumOf([i \in 1..Len(c) |-> c[i] * c[i]]) IN s >= (25000000 \div (unit * unit)) * Len(c)
TVad ==
  /\ Unit("Vad", "C12")
  /\ Must("C12", "voice activity", e.out = "ok" =>
          LET loud == [k \in 1..Len(e.chunks) |-> ChunkLoud(e.chunks[k], e.unit)]
              n == MaxOf(2, Len(loud))
          IN e.res = [k \in 1..n |-> IF k <= 2 \/ Active(loud, k) THEN 1 ELSE 0])
TSeg ==
  /\ Is("Seg") /\ Rest /\ UNCHANGED vars
  /\ LET p == IF e.mode = "audio" THEN 20 ELSE 30
         id == IF e.mode = "audio" THEN "C13" ELSE "C12"
         small == e.frames < MinFrames(e.mode, p)
     IN /\ Must(id, "segmentation does not crash", e.out # "panic")
        /\ Must("C02", "short references are rejected", e.out # "panic" /\ (small <=> e.out = "err"))
        /\ Must("C02", "with the lengths", e.out = "err" => e.err.kind = "frames" /\ e.err.nums = <<e.frames, MinFrames(e.mode, p)>>)
        /\ (e.out = "ok" /\ ~small =>
             /\ Must("C13", "audio grid", e.mode = "audio" => e.idx = AudioGrid(e.frames, p))
             /\ Must("C12", "speech segmentation", e.mode # "audio" => SpeechSegmentationOk(e.idx, e.frames, p, Surely(e.power), Maybe(e.power)))
             /\ Must(id, "patches hold the reference's frames", e.same /\ \A i \in 1..Len(e.cols) : e.cols[i] = p))
TFloor ==
  /\ Unit("Floor", "C11")
  /\ Must("C11", "noise floor", e.out = "ok" =>
          LET f == F!Floored(e.r, e.d, 100)
              x100(m) == [b \in 1..Len(m) |-> [k \in 1..Len(m[b]) |-> 100 * m[b][k]]]
          IN Len(e.outr) = Len(e.r) /\ Len(e.outd) = Len(e.d) /\ FloorOk(e.outr, x100(f.r)) /\ FloorOk(e.outd, x100(f.d)))

\* en (1e-6) is the mean: en * n = sum of the entries, n counting the decimal scale
EnergyOk(en, n, sum) == LET x == Sub(Mul(B(en), B(n)), Mul(B(sum), B(1000000))) IN Leq(Abs(x), B(2 * n))
TNsim ==
  /\ Unit("Nsim", "C17")
  /\ Must("C17", "inputs are not changed, arguments may be exchanged", e.out = "ok" => e.keep /\ Close(e.sim, e.back, 3))
  /\ Must("C17", "identical patches have similarity 1", e.out = "ok" /\ e.r = e.d => Close(e.sim, One, 5) /\ \A b \in 1..Len(e.means) : Close(e.means[b], One, 5))
  /\ Must("C17", "at most 1", e.out = "ok" => e.sim <= One + 1 /\ \A b \in 1..Len(e.means) : e.means[b] <= One + 1)
  /\ Must("C17", "local formula", e.out = "ok" =>
          \A b \in {e.judge[i] : i \in 1..Len(e.judge)} :
            LET s == N!BandStats(e.r, e.d, b, e.scale)
                sum == SumOf(e.d[b])
            IN /\ s.lo - 3 <= e.means[b] /\ e.means[b] <= s.hi + 3
               /\ (IF Finite(s.std) THEN Clip(e.stds[b] - s.std) <= s.slack + 5 ELSE TRUE)
               /\ EnergyOk(e.en[b], e.scale * Len(e.d[b]), sum))
  /\ Must("C17", "similarity is the mean over the bands", e.out = "ok" => MeanOk(e.means, e.sim, 2))

TSelect ==
  /\ Unit("Select", "C14")
  /\ LET w == Window(e.radius, e.p)
         n == NumPatches(e.idx, w, e.p, e.fdeg)
         off(p) == IF IsLost(p) THEN -1 ELSE RoundDiv(p.ds, 20000)
     IN /\ Must("C15", "nothing reachable: an error, otherwise a matching", e.out # "panic" /\ (n = 0 <=> e.out = "err"))
        /\ (e.out = "ok" /\ n > 0 =>
             LET offs == [i \in 1..Len(e.res) |-> off(e.res[i])]
                 pos == PositionsOf(offs)
             IN /\ Must("C15", "exactly the unreachable trailing patches are dropped", Len(offs) = n)
                /\ Must("C15", "reference times", \A i \in 1..Len(offs) : Close(e.res[i].rs, 20000 * e.idx[i], 3) /\ Close(e.res[i].re, 20000 * (e.idx[i] + e.p), 3))
                /\ Must("C15", "lost patches count as zero", \A i \in 1..Len(offs) : LostOk(e.res[i]))
                /\ (Len(offs) = n =>
                    /\ Must("C14", "legal", ~IsLost(e.res[1]) /\ LegalPositions(pos, e.idx, w, e.fdeg) /\ Increasing(offs))
                    /\ Must("C14", "whole frames", \A i \in 1..n : IsLost(e.res[i]) \/ (Close(e.res[i].ds, 20000 * offs[i], 3) /\ Close(e.res[i].de, 20000 * (offs[i] + e.p), 3)))
                    /\ (LegalPositions(pos, e.idx, w, e.fdeg) =>
                        /\ Must("C14", "largest total similarity", Clip(Total(pos, e.s) - OptimalTotal(e.s, e.idx, n, w, e.fdeg)) <= n + 2)
                        /\ Must("C14", "the similarity of the matched offset", \A i \in 1..n : ~IsLost(e.res[i]) => Close(e.res[i].sim, e.s[i][offs[i] + 1], 3)))))
TMap ==
  /\ Unit("Map", "C06")
  /\ Must("C06", "quality mapping", e.out = "ok" =>
          LET m == RoundDiv(SumOf(e.v), Len(e.v)) IN
          /\ Close(e.scaled, SpeechScore(m, TRUE), 8) /\ Close(e.unscaled, SpeechScore(m, FALSE), 8)
          /\ (Len(e.v) = 32 /\ SvmFile # "" => Close(e.svr, SvrScoreOf(e.model, e.v), 1500)))
TLevel ==
  /\ Unit("Level", "C09")
  /\ Must("C09", "level", e.out = "ok" => e.len = e.nb /\ e.rate = e.sr /\ e.prop /\ Close(e.rmsppb, 0, 50))

\* ------------------------------------------------------------ spectrogram ----
EarA == 2288329                          \* 9.26449 * 24.7 Hz, in 1e-4
HighEdge(x) == IF x.mode = "audio" THEN (x.sr \div 2) * 10000 ELSE IF x.sr >= 16000 THEN 80000000 ELSE x.sr * 5000
\* centre frequencies are evenly spaced on the ear's scale: a geometric sequence
Geometric(a, b, c, tol) == LET x == Mul(B(a), B(c)) y == Mul(B(b), B(b)) IN Leq(Mul(Abs(Sub(x, y)), B(tol)), y)
CentresOk(x) ==
  LET c == x.centers n == Len(c) g(i) == (IF i > n THEN HighEdge(x) ELSE c[i]) + EarA
  IN /\ n = x.bands /\ CentersOk(c) /\ Close(c[1], 500000, 20) /\ c[n] < HighEdge(x)
     /\ \A i \in 2..n : Geometric(g(i - 1), g(i), g(i + 1), 100000)
TSpec ==
  /\ Unit("Spec", "C10")
  /\ Must("C10", "too short signals are rejected with the lengths",
          e.out # "panic" /\ (e.n < e.win <=> e.out = "err") /\ (e.out = "err" => e.err.kind = "samples" /\ e.err.nums = <<e.n, e.win>>))
  /\ (e.out = "ok" =>
       /\ Must("C10", "frames and rows", e.rows = e.bands /\ e.win = (8 * e.sr + 50) \div 100 /\ e.frames = 1 + (e.n - e.win) \div (e.win \div 4))
       /\ Must("C10", "finite non-negative values, zero for silence", e.sane /\ (e.silent <=> e.zero))
       /\ Must("C10", "frames depend only on their own samples", Clip(e["local"]) <= 100)
       /\ Must("C10", "no memory between signals", Clip(e.again) <= 100)
       /\ Must("C10", "linear in the level", Clip(e.linear) <= 100 /\ Clip(e.sign) <= 100)
       /\ Must("C10", "moving the signal by a hop moves the frames", Clip(e.shift) <= 100)
       /\ Must("C10", "centre frequencies", CentresOk(e))
       /\ Must("C10", "a tone excites the band it lies in", e.tone > 0 =>
               LET b == e.loudest IN (b = 1 \/ e.centers[b - 1] <= e.tone * 10000) /\ (b = e.bands \/ e.tone * 10000 <= e.centers[b + 1])))

\* ------------------------------------------------------------------- files ----
OutcomeOk(o, x, sr1, sr2) ==
  IF Wv!Loadable(x) THEN (IF sr1 # sr2 THEN o.out = "err" /\ o.err.kind = "rates" /\ o.err.nums = <<sr1, sr2>> ELSE o.out # "panic")
  ELSE o.out = "err" /\ Wv!CauseOk(x, o.err)
TLoad ==
  /\ Is("Load") /\ Rest /\ UNCHANGED vars
  /\ Must("C01", "no crash", e.out # "panic" /\ ("asref" \in DOMAIN e => e.asref.out # "panic" /\ e.asdeg.out # "panic"))
  /\ Must("C02", "loads exactly the readable 16-bit files", e.out = (IF Wv!Loadable(e) THEN "ok" ELSE "err"))
  /\ Must("C02", "the error names the cause", e.out = "err" => Wv!CauseOk(e, e.err))
  /\ Must("C02", "comparisons with the file", "asref" \in DOMAIN e => OutcomeOk(e.asref, e, e.sr, e.gsr) /\ OutcomeOk(e.asdeg, e, e.gsr, e.sr))
  /\ Must("C04", "readable files load", Wv!Loadable(e) => e.out = "ok")
  /\ Must("C04", "one exactly scaled mean per frame", Wv!Loadable(e) /\ e.out = "ok" => e.rate = e.sr /\ e.sum = Wv!FrameSums(e) /\ e.exact)

\* --------------------------------------------------------------- histories ----
\* seen: outcome of every configuration and pair on a fresh manager in a fresh process
TSession == Is("Session") /\ UNCHANGED <<vars, matrix, scores, fresh>> /\ seen' = <<>>
TFresh == Is("Fresh") /\ UNCHANGED <<vars, matrix, scores, fresh>> /\ seen' = (e.key :> e.res) @@ seen
TCall ==
  /\ Is("Call") /\ Rest /\ UNCHANGED vars
  /\ e.key \in DOMAIN seen
  /\ Must("C03", "the outcome is that of a fresh manager", e.res = seen[e.key])
  /\ Must("C03", "the caller's signals are unchanged", e.keep)
TSessionEnd == Is("SessionEnd") /\ UNCHANGED <<vars, matrix, scores, fresh>> /\ seen' = <<>>

TInit == Idle /\ l = 1 /\ seen = <<>> /\ matrix = <<>> /\ scores = <<>> /\ fresh = <<>>
TNext ==
  \/ TBegin \/ TAligned \/ TScaled \/ TBuilt \/ TPrepared \/ TSegmented \/ TCut \/ TMatched \/ TRealigned \/ TRefined
  \/ TEndOk \/ TEndErr \/ TEndPanic \/ THang
  \/ TSkip \/ TLag \/ TGalign \/ TAtrunc \/ TVad \/ TSeg \/ TFloor \/ TNsim \/ TSelect \/ TMap \/ TLevel \/ TSpec
  \/ TLoad \/ TSession \/ TFresh \/ TCall \/ TSessionEnd
TSpecification == TInit /\ [][TNext]_tvars
Accepted ==
  LET n == TLCGet("stats").diameter - 1
  IN n = Len(Log) \/ (PrintT("STOPPED at line " \o ToString(n + 1) \o " of " \o ToString(Len(Log))) /\ FALSE)
=============================================================================
