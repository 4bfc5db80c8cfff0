------------------------------ MODULE Families ------------------------------
(* Test generation.  Every case below is one choice of the environment of    *)
(* the specification (lengths, contents, degradations, radii, files, small   *)
(* matrices for single steps); limits are computed from the specification so *)
(* that the cases sit on and around them.  Cases are drawn with TLC's seeded *)
(* generator and written as recipes that the harness executes.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, Segmentation, Matching

Pick(S) == RandomElement(S)
OneOf(seq) == seq[RandomElement(1..Len(seq))]
Nth(seq, k) == seq[1 + (k % Len(seq))]
Seed(x) == Pick(1..100000000)          \* (an operator with an argument, because TLC evaluates constants once)

Win(sr) == (8 * sr + 50) \div 100
Hop(sr) == Win(sr) \div 4
N(sr, frames, extra) == Win(sr) + (frames - 1) * Hop(sr) + extra
P(mode) == IF mode = "audio" THEN 20 ELSE 30
Modes == <<"speech", "audio", "unscaled">>
Rates == <<8000, 8000, 8000, 16000, 8000, 11025, 8000, 12000, 16000, 8010>>
Contents == <<"noise", "speech", "mix", "chirp", "soft", "offset", "below", "pulses", "loud", "tone", "gated", "paused">>

Part(kind) ==
  CASE kind = "noise"  -> <<[k |-> "noise", seed |-> Seed(0), amp |-> 9000]>>
    [] kind = "soft"   -> <<[k |-> "noise", seed |-> Seed(0), amp |-> 60]>>
    [] kind = "loud"   -> <<[k |-> "noise", seed |-> Seed(0), amp |-> 40000]>>
    [] kind = "speech" -> <<[k |-> "speech", seed |-> Seed(0), amp |-> 12000]>>
    [] kind = "mix"    -> <<[k |-> "speech", seed |-> Seed(0), amp |-> 7000], [k |-> "tone", f |-> Pick(100..3000), amp |-> 2000], [k |-> "noise", seed |-> Seed(0), amp |-> 300]>>
    [] kind = "chirp"  -> <<[k |-> "chirp", f0 |-> Pick(60..400), f1 |-> Pick(1500..3900), amp |-> 11000]>>
    [] kind = "offset" -> <<[k |-> "noise", seed |-> Seed(0), amp |-> 4000], [k |-> "dc", amp |-> 9000]>>
    [] kind = "below"  -> <<[k |-> "noise", seed |-> Seed(0), amp |-> 4000], [k |-> "dc", amp |-> -12000]>>
    [] kind = "pulses" -> <<[k |-> "pulse", at |-> Pick(0..9000), amp |-> 30000], [k |-> "pulse", at |-> Pick(0..9000), amp |-> -20000], [k |-> "noise", seed |-> Seed(0), amp |-> 20]>>
    [] kind = "tone"   -> <<[k |-> "tone", f |-> Pick(100..3500), amp |-> 15000]>>
    [] kind = "gated"  -> <<[k |-> "noise", seed |-> Seed(0), amp |-> 12000], [k |-> "gate", half |-> Pick(300..5000), phase |-> Pick(0..1), low |-> 0]>>
    \* silent for whole patches
    [] kind = "paused" -> <<[k |-> OneOf(<<"noise", "speech">>), seed |-> Seed(0), amp |-> 12000], [k |-> "gate", half |-> Pick(6000..15000), phase |-> Pick(0..1), low |-> 0]>>
    [] kind = "square" -> <<[k |-> "square", half |-> Pick(3..40), amp |-> 9000]>>
    [] OTHER           -> <<>>
Sig(kind, n) == [n |-> n, parts |-> Part(kind)]

\* one random degradation of a signal of n samples
Op(n, sr) ==
  LET h == Hop(sr) at == Pick(0..n) len == Pick(1..(n \div 3 + 1)) IN
  OneOf(<< <<[op |-> "noise", seed |-> Seed(0), amp |-> Pick({30, 500, 3000, 9000})]>>,
           <<[op |-> "zero", from |-> at, to |-> at + len]>>,
           <<[op |-> "cut", from |-> at, n |-> Pick(1..(4 * h))]>>,
           <<[op |-> "insert", from |-> at, n |-> Pick(1..(4 * h))]>>,
           <<[op |-> "clip", amp |-> Pick({500, 2000, 5000})]>>,
           <<[op |-> "lowpass", k |-> Pick(2..12)]>>,
           <<[op |-> "crush", q |-> Pick({256, 2048})]>>,
           <<[op |-> "swap", from |-> at, from2 |-> Pick(0..n), n |-> len]>>,
           <<[op |-> "delay", n |-> Pick(1..(n \div 2))]>>,
           <<[op |-> "advance", n |-> Pick(1..(n \div 2))]>>,
           <<[op |-> "len", n |-> Pick((n \div 2)..(n + n \div 2))]>>,
           <<[op |-> "gain", num |-> Pick(1..20), den |-> 10]>>,
           <<[op |-> "invert"]>>, <<[op |-> "reverse"]>>,
           <<[op |-> "append", n |-> Pick(1..n)]>>,
           <<[op |-> "make", sig |-> Sig(OneOf(Contents), Pick((n \div 3)..(2 * n)))]>>,
           <<[op |-> "zero", from |-> at, to |-> at + len], [op |-> "noise", seed |-> Seed(0), amp |-> 400]>> >>)

Base == [u |-> "pipe", mode |-> "speech", radius |-> 2, sr |-> 8000]
Radii == <<2, 1, 3, 0, 10, 60, 1, 2>>

\* ---------------------------------------------------------- comparisons ----
\* anything
FAny(k) ==
  LET mode == Nth(Modes, k)  sr == OneOf(Rates)  f == Pick(30..170)  n == N(sr, f, Pick(0..(Hop(sr) - 1)))
      ops == OneOf(<<1, 1, 2, 3>>)
      deg == FoldLeft(LAMBDA a, i : a \o Op(n, sr), <<>>, [i \in 1..ops |-> i])
  IN [fam |-> "any", mode |-> mode, sr |-> sr, radius |-> OneOf(Radii), ref |-> Sig(OneOf(Contents), n), deg |-> deg, ch |-> OneOf(<<1, 1, 2, 3>>), chdeg |-> OneOf(<<1, 1, 2, 6>>)] @@ Base
\* high sample rates
FRates(k) ==
  LET sr == IF k % 2 = 1 THEN Pick(8000..(IF k % 4 = 1 THEN 16000 ELSE 48000)) ELSE Nth(<<48000, 44100, 22050, 32000, 24000, 11025, 16000, 9600>>, k \div 2)  mode == OneOf(Modes)
      n == N(sr, Pick(46..90), Pick(0..(Hop(sr) - 1)))
  IN [fam |-> "rates", mode |-> mode, sr |-> sr, radius |-> Pick(0..2), ref |-> Sig(OneOf(<<"speech", "noise", "mix">>), n), deg |-> Op(n, sr)] @@ Base
\* lengths at and around every limit
RefLimits(mode, sr) ==
  LET m == MinFrames(mode, P(mode)) IN
  <<0, 1, 2, 15, Win(sr) - 1, Win(sr), Win(sr) + 1, N(sr, 2, -1), N(sr, 2, 0), N(sr, m - 1, 0), N(sr, m, -1), N(sr, m, 0), N(sr, m, 1),
    N(sr, m + 1, 0), N(sr, m + 2, 0), N(sr, m + P(mode) - 1, 0), N(sr, m + P(mode), 0), N(sr, m + P(mode) + 1, -1), N(sr, m + P(mode) + 2, 0)>>
DegLimits(mode, sr, n) ==
  LET s == FirstStart(P(mode)) IN
  <<0, 1, 2, Win(sr) - 1, Win(sr), Win(sr) + 1, N(sr, s, 0), N(sr, s + 1, -1), N(sr, s + 1, 0), N(sr, s + 2, 0), N(sr, s + P(mode), 0), n, n + 1, 2 * n>>
FLimitsRef(k) ==
  LET mode == Nth(Modes, k)  sr == OneOf(<<8000, 8000, 8010, 11025>>)  lim == RefLimits(mode, sr)  n == Nth(lim, k \div 3)
      kind == OneOf(<<"noise", "speech", "soft", "zero">>)
      deg == OneOf(<< <<>>, <<[op |-> "noise", seed |-> Seed(0), amp |-> 600]>>, <<[op |-> "make", sig |-> Sig("noise", OneOf(DegLimits(mode, sr, n)))]>>, <<[op |-> "make", sig |-> Sig("speech", 12000)]>> >>)
  IN [fam |-> "reflimits", mode |-> mode, sr |-> sr, radius |-> OneOf(Radii), ref |-> Sig(kind, n), deg |-> deg] @@ Base
FLimitsDeg(k) ==
  LET mode == Nth(Modes, k)  sr == OneOf(<<8000, 8000, 8010, 11025>>)  n == N(sr, Pick(44..130), Pick(0..3))  lim == DegLimits(mode, sr, n)  m == Nth(lim, k \div 3)
      kind == OneOf(<<"noise", "speech", "soft">>)
      deg == OneOf(<< <<[op |-> "len", n |-> m]>>, <<[op |-> "make", sig |-> Sig("noise", m)]>>, <<[op |-> "make", sig |-> Sig("zero", m)]>> >>)
  IN [fam |-> "deglimits", mode |-> mode, sr |-> sr, radius |-> OneOf(<<0, 1, 2, 60>>), ref |-> Sig(kind, n), deg |-> deg] @@ Base
\* sample rates that differ
FMixed(k) ==
  LET a == OneOf(<<8000, 16000, 11025, 44100, 48000>>)  b == OneOf(<<8000, 16000, 11025, 44100, 48000, 8001>>)
  IN [fam |-> "mixed", mode |-> Nth(Modes, k), sr |-> a, srdeg |-> b, radius |-> 1, ref |-> Sig("noise", OneOf(<<a, a + a \div 2, 100, 0>>)), deg |-> <<>>] @@ Base
\* silence on either side, or in long stretches
FSilent(k) ==
  LET mode == Nth(Modes, k)  sr == OneOf(<<8000, 16000>>)  n == N(sr, Pick(44..140), Pick(0..9))
      r == OneOf(<<"zero", "noise", "speech", "zero">>)
      deg == OneOf(<< <<[op |-> "zero"]>>, <<>>, <<[op |-> "make", sig |-> Sig(OneOf(<<"zero", "noise", "speech", "soft">>), Pick(700..(2 * n)))]>>,
                      <<[op |-> "zero", from |-> n \div 4, to |-> n - (n \div 8)]>> >>)
  IN [fam |-> "silent", mode |-> mode, sr |-> sr, radius |-> OneOf(Radii), ref |-> Sig(r, n), deg |-> deg] @@ Base
\* radii from none to the largest representable
FRadius(k) ==
  LET mode == Nth(Modes, k)  n == N(8000, Pick(50..120), 0)  b == Nth(<<0, 1, 2, 3, 4, 0>>, k)
  IN [fam |-> "radius", mode |-> mode, radius |-> Nth(<<0, 1, 1000, 60, 1000000, 2147483647, 71582789>>, k), rbig |-> b,
      ref |-> Sig("speech", n), deg |-> Op(n, 8000), smatrix |-> 1] @@ Base

\* a signal and its copy
FSelf(k) ==
  LET mode == Nth(Modes, k)  c == Nth(Contents, k \div 3)  sr == OneOf(Rates)
      n == N(sr, MinFrames(mode, P(mode)) + Pick(0..90) + (IF c = "paused" THEN 50 ELSE 0), Pick(0..(Hop(sr) - 1)))
      sig == IF c # "paused" THEN Sig(c, n)
             ELSE [n |-> n, parts |-> Part("speech") \o <<[k |-> "gate", half |-> Pick(36..56) * Hop(sr), phase |-> Pick(0..1), low |-> 0]>>]
  IN [fam |-> "self", mode |-> mode, sr |-> sr, radius |-> OneOf(Radii), ref |-> sig, deg |-> <<>>, want |-> [own |-> c \in {"noise", "speech", "mix", "soft", "loud"}], ch |-> Pick({1, 2})] @@ Base
FSelfHigh(k) ==
  LET mode == Nth(Modes, k)  sr == Nth(<<48000, 44100, 22050, 32000>>, k)  n == N(sr, MinFrames(mode, P(mode)) + Pick(0..40), Pick(0..99))
  IN [fam |-> "selfhigh", mode |-> mode, sr |-> sr, radius |-> Pick(1..2), ref |-> Sig(OneOf(<<"noise", "speech">>), n), deg |-> <<>>, want |-> [own |-> TRUE]] @@ Base

\* pure delays of steady noise
FDelay(k) ==
  LET mode == Nth(Modes, k)  sr == OneOf(<<8000, 8000, 16000, 11025>>)
      n == IF k % 4 = 3 THEN (IF sr = 16000 THEN 32768 ELSE 16384) + Pick(-2..2) ELSE N(sr, MinFrames(mode, P(mode)) + Pick(0..60), Pick(0..(Hop(sr) - 1)))
      d == Nth(<<1, 2, 3, Hop(sr) - 1, Hop(sr), n \div 4, n \div 3, (n \div 2) - 1, n \div 2, (n \div 2) + 1, (n \div 2) + 2, n - (n \div 3), 5 * Hop(sr) + 7>>, k)
      late == Pick({TRUE, FALSE})
      fits == d <= n \div 2
  IN IF k % 13 \in {4, 9} THEN    \* a copy at another level long before the best match, or long after it
       [fam |-> "delay", mode |-> mode, sr |-> sr, radius |-> 1, ref |-> Sig("noise", n),
        deg |-> <<[op |-> "again", n |-> Pick(0..(3 * n)), num |-> OneOf(<<1, 1, 3>>), den |-> 2], [op |-> IF late THEN "delay" ELSE "advance", n |-> Pick(1..(n \div 2))]>>] @@ Base
     ELSE [fam |-> "delay", mode |-> mode, sr |-> sr, radius |-> OneOf(Radii), ref |-> Sig("noise", n),
      deg |-> <<IF late THEN [op |-> "delay", n |-> d] ELSE [op |-> "advance", n |-> d]>>,
      shift |-> IF ~fits THEN 0 ELSE IF late THEN -d ELSE d, want |-> [still |-> late /\ fits]] @@ Base
\* the same pair at several levels
FGain(k) ==
  LET mode == Nth(Modes, k)  sr == OneOf(<<8000, 8000, 16000>>)  n == N(sr, Pick(46..110), Pick(0..50))
      ref == Sig(OneOf(<<"speech", "noise", "mix">>), n)
      deg == Op(n, sr) \o <<[op |-> "noise", seed |-> Seed(0), amp |-> 900]>>
      g == OneOf(<< <<1, 2>>, <<1, 3>>, <<7, 1>>, <<1, 50>>, <<3, 2>>, <<1000, 1>>, <<1, 200>>, <<1, 500>>, <<20000, 1>>, <<101, 100>> >>)
      b == [fam |-> "gain", mode |-> mode, sr |-> sr, radius |-> OneOf(<<1, 2, 3>>), ref |-> ref, deg |-> deg, want |-> [group |-> "g" \o ToString(k)]] @@ Base
  IN <<b @@ [fgain |-> [num |-> 1, den |-> 1]], b @@ [fgain |-> [num |-> g[1], den |-> g[2]]]>>

\* voice activity laid out chunk by chunk
PatchChunks(kind) ==
  [c \in 1..30 |-> CASE kind = "quiet" -> Pick({0, 40, 120})
                     [] kind = "loud"  -> Pick({700, 1000})
                     [] kind = "first" -> IF c = 1 THEN 1000 ELSE 60
                     [] kind = "second" -> IF c = 2 THEN 1000 ELSE 60
                     [] kind = "last"  -> IF c = 30 THEN 1000 ELSE 60
                     [] kind = "third" -> IF c = 28 THEN 1000 ELSE 0
                     [] kind = "fourth" -> IF c = 27 THEN 1000 ELSE 0
                     [] kind = "mid"   -> IF c = 14 THEN 900 ELSE 100
                     [] kind = "limit" -> Pick({240, 255, 262, 266, 275, 290, 100})
                     [] kind = "pair"  -> IF c \in {9, 11} THEN 700 ELSE 30
                     [] OTHER          -> Pick({0, 100, 1000, 500})]
PatchKinds == <<"quiet", "loud", "first", "last", "quiet", "third", "mid", "mixed", "quiet", "second", "fourth", "limit", "pair">>
Activity(patches) == FoldLeft(LAMBDA a, i : a \o PatchChunks(OneOf(PatchKinds)), PatchChunks(OneOf(<<"loud", "mid", "first", "mixed", "last">>)), [i \in 1..patches |-> i])
\* one-sided peaks and offsets: the peak that normalises is the largest sample
Bends == << <<>>, <<>>, <<[k |-> "pulse", at |-> Pick(0..4000), amp |-> -20000]>>, <<[k |-> "pulse", at |-> Pick(0..4000), amp |-> 9000]>>, <<[k |-> "dc", amp |-> -1500]>>, <<[k |-> "dc", amp |-> 900]>> >>
FVad(k) ==
  LET sr == OneOf(<<8000, 8000, 16000, 11025>>)  ps == Pick(1..6)  n == N(sr, 44 + 30 * ps + Pick(0..32), Pick(0..60))
  IN [fam |-> "vad", mode |-> OneOf(<<"speech", "unscaled">>), sr |-> sr, radius |-> OneOf(<<1, 2, 3>>),
      ref |-> [n |-> n, parts |-> <<[k |-> "noise", seed |-> Seed(0), amp |-> 12000], [k |-> "shape", hop |-> Hop(sr), off |-> 14, a |-> Activity(ps)]>> \o OneOf(Bends)],
      deg |-> OneOf(<< <<>>, <<[op |-> "noise", seed |-> Seed(0), amp |-> 50]>>, <<[op |-> "noise", seed |-> Seed(0), amp |-> 4000]>> >>)] @@ Base

\* content lost, repeated, exchanged
FLoss(k) ==
  LET mode == Nth(Modes, k)  sr == OneOf(<<8000, 8000, 8000, 11025>>)  h == Hop(sr)  p == P(mode) * h
      f == Pick(100..230)  n == N(sr, f, Pick(0..(h - 1)))  i == Pick(0..4)  j == Pick(0..4)
      deg == OneOf(<< <<[op |-> "swap", from |-> FirstStart(P(mode)) * h + i * p, from2 |-> FirstStart(P(mode)) * h + j * p, n |-> p]>>,
                      <<[op |-> "cut", from |-> i * p, n |-> Pick(1..(2 * p))]>>,
                      <<[op |-> "cut", from |-> i * p, n |-> Pick(1..p)], [op |-> "insert", from |-> j * p, n |-> Pick(1..p)]>>,
                      <<[op |-> "insert", from |-> i * p, n |-> Pick(1..(2 * p))]>>,
                      <<[op |-> "reverse"]>>,
                      <<[op |-> "zero", from |-> i * p, to |-> i * p + Pick(1..(2 * p))]>>,
                      <<[op |-> "swap", from |-> 0, from2 |-> n \div 2, n |-> n \div 2]>>,
                      <<[op |-> "make", sig |-> Sig(OneOf(<<"noise", "speech", "tone">>), Pick((n \div 2)..(n + n \div 2)))]>> >>)
  IN [fam |-> "loss", mode |-> mode, sr |-> sr, radius |-> OneOf(<<0, 1, 2, 3, 6>>), ref |-> Sig(OneOf(<<"speech", "noise", "chirp", "tone", "mix">>), n),
      deg |-> deg \o <<[op |-> "noise", seed |-> Seed(0), amp |-> Pick({1, 300, 2000})]>>, smatrix |-> 1] @@ Base
\* references with silent (or barely active) patches against loud signals: patches match
\* the very end of the degraded signal, and later ones find no counterpart in order
FLost(k) ==
  LET mode == Nth(Modes, k)  pp == P(mode)  sr == OneOf(<<8000, 8000, 8000, 11025, 16000>>)  h == Hop(sr)  q == Pick(4..8)
      n == N(sr, FirstStart(pp) + q * pp + Pick(2..pp), Pick(0..(h - 1)))
      quiet == IF mode = "audio" THEN [c \in 1..pp |-> 0] ELSE OneOf(<<[c \in 1..pp |-> IF c = 1 THEN 1000 ELSE 0], [c \in 1..pp |-> IF c = 1 THEN 900 ELSE 0], [c \in 1..pp |-> IF c = pp THEN 1000 ELSE 0]>>)
      loud == [c \in 1..pp |-> 1000]
      levels == FoldLeft(LAMBDA a, i : a \o OneOf(<<quiet, quiet, loud>>), loud, [i \in 1..q |-> i])
      dn == MaxOf(Win(sr), n + OneOf(<<0, 0, -5, -pp, pp, -2 * pp>>) * h)
  IN [fam |-> "lost", mode |-> mode, sr |-> sr, radius |-> OneOf(<<2, 3, 4, 6, 60>>),
      ref |-> [n |-> n, parts |-> <<[k |-> "noise", seed |-> Seed(0), amp |-> 9000], [k |-> "shape", hop |-> h, off |-> FirstStart(pp) * h, a |-> levels]>>],
      deg |-> OneOf(<< <<[op |-> "make", sig |-> Sig(OneOf(<<"noise", "speech">>), dn)]>>, <<[op |-> "make", sig |-> Sig("noise", dn)]>>,
                       <<[op |-> "noise", seed |-> Seed(0), amp |-> 9000], [op |-> "len", n |-> dn]>> >>), smatrix |-> 1] @@ Base
\* degraded signals that end around the limits of reach of some patch
FShort(k) ==
  LET mode == Nth(Modes, k)  pp == P(mode)  r == OneOf(<<0, 1, 1, 2>>)  f == 44 + Pick(60..180)
      grid == AudioGrid(f, pp)  s == OneOf(grid)
      limit == OneOf(<<s - HalfPatch(pp), s - r * pp, s, s + pp>>) + Pick(-2..2)
      fd == IF limit < 1 THEN 1 ELSE limit
  IN [fam |-> "short", mode |-> mode, radius |-> r, ref |-> Sig(OneOf(<<"noise", "noise", "speech">>), N(8000, f, Pick(0..9))),
      deg |-> OneOf(<< <<[op |-> "len", n |-> N(8000, fd, Pick(0..9))]>>, <<[op |-> "make", sig |-> Sig("noise", N(8000, fd, 0))]>> >>), smatrix |-> 1] @@ Base
\* small local delays for the realignment
FLocal(k) ==
  LET mode == Nth(Modes, k)  sr == OneOf(<<8000, 8000, 16000, 11025>>)  h == Hop(sr)  n == N(sr, Pick(60..150), Pick(0..(h - 1)))
      at == Pick(0..(n \div 2))
      small == Nth(<<1, 3, h \div 2, h - 1, h + 1, 2 * h + 5, h \div 3, 37>>, k \div 2)
  IN [fam |-> "local", mode |-> mode, sr |-> sr, radius |-> OneOf(<<1, 2>>), ref |-> Sig(OneOf(<<"speech", "noise", "noise", "mix">>), n),
      deg |-> OneOf(<< <<[op |-> "cut", from |-> at, n |-> small]>>, <<[op |-> "insert", from |-> at, n |-> small]>>,
                       <<[op |-> "insert", from |-> at, n |-> small], [op |-> "cut", from |-> Pick(at..n), n |-> Pick(1..(3 * h))]>> >>)
              \o <<[op |-> "noise", seed |-> Seed(0), amp |-> Pick({1, 200, 1500})]>>] @@ Base
\* signals of several seconds
FLong(k) ==
  LET mode == Nth(Modes, k \div 2)  f == IF k % 6 \in {3, 5} THEN Pick(260..320) ELSE IF k = 0 THEN Pick(1990..2300) ELSE Pick(300..560)  n == N(8000, f, Pick(0..159))  at == Pick(32100..(n - 3000))
      d == Pick(16001..(n \div 2))
      kind == IF k % 6 = 0 THEN "noise" ELSE OneOf(<<"speech", "noise", "gated", "mix">>)
      deg == CASE k % 6 = 0 -> OneOf(<< <<[op |-> "delay", n |-> d]>>, <<[op |-> "advance", n |-> d]>> >>)
               [] k % 6 = 1 -> <<[op |-> "level", from |-> at, num |-> Pick({1, 4, 30}), den |-> Pick({2, 7})], [op |-> "noise", seed |-> Seed(0), amp |-> 200]>>
               [] k % 6 = 2 -> <<[op |-> "len", n |-> at], [op |-> "noise", seed |-> Seed(0), amp |-> 500]>>
               [] k % 6 = 3 -> <<[op |-> "swap", from |-> Pick(2000..9000), from2 |-> Pick(20000..30000), n |-> Pick(3000..10000)], [op |-> "noise", seed |-> Seed(0), amp |-> 500]>>
               [] k % 6 = 4 -> <<>>
               [] OTHER     -> Op(n, 8000)
  IN [fam |-> "long", mode |-> mode, radius |-> IF k = 0 THEN 1 ELSE OneOf(<<1, 2, 4>>), ref |-> Sig(kind, n), deg |-> deg] @@
     (IF k % 6 \in {3, 5} THEN [smatrix |-> 1] ELSE IF k % 6 = 4 THEN [want |-> [own |-> kind # "gated"]] ELSE [ch |-> 1]) @@ Base
\* content where the other signal has none: similarities below zero
FAnti(k) ==
  LET mode == Nth(Modes, k)  n == N(8000, Pick(44..100), Pick(0..159))  half == Pick(300..3000)  low == OneOf(<<0, 10, 60>>)
      gated(phase) == [n |-> n, parts |-> <<[k |-> "noise", seed |-> Seed(0), amp |-> 15000], [k |-> "gate", half |-> half, phase |-> phase, low |-> low]>>]
  IN [fam |-> "anti", mode |-> mode, radius |-> OneOf(<<0, 0, 0, 1>>), ref |-> gated(0),
      deg |-> OneOf(<< <<[op |-> "make", sig |-> gated(1)]>>, <<[op |-> "make", sig |-> gated(1)], [op |-> "lowpass", k |-> 5]>> >>), smatrix |-> 1] @@ Base
\* offsets, of opposite sign too: envelopes that correlate negatively
FOffset(k) ==
  LET mode == Nth(Modes, k)  n == N(8000, Pick(46..90), Pick(0..159))  d == Pick(1..(n \div 2))
      a == Nth(<<12000, -12000, 9000, -5000>>, k)  b == OneOf(<<-2 * a, -a, a, -3 * a>>)
      sig == [n |-> n, parts |-> Part(OneOf(<<"noise", "speech", "gated">>)) \o <<[k |-> "dc", amp |-> a]>>]
  IN [fam |-> "offset", mode |-> mode, radius |-> OneOf(<<1, 2>>), ref |-> sig,
      deg |-> OneOf(<< <<[op |-> "delay", n |-> d]>>, <<[op |-> "advance", n |-> d]>>, <<[op |-> "noise", seed |-> Seed(0), amp |-> 3000]>>, <<[op |-> "make", sig |-> Sig("gated", n)]>> >>)
              \o <<[op |-> "dc", amp |-> b]>>] @@ Base
\* preparation observed in full
FFloor(k) ==
  LET mode == Nth(Modes, k)  n == N(8000, Pick(44..60), 0)
  IN [fam |-> "floor", mode |-> mode, radius |-> 1, ref |-> Sig(OneOf(<<"speech", "noise", "zero", "pulses">>), n),
      deg |-> OneOf(<<Op(n, 8000), <<[op |-> "zero", from |-> Pick(0..n)]>>, <<[op |-> "len", n |-> Pick(800..(2 * n))], [op |-> "noise", seed |-> Seed(0), amp |-> 300]>> >>), matrix |-> 1] @@ Base

\* ---------------------------------------------------------- single steps ----
Ints(n, lo, hi) == [i \in 1..n |-> Pick(lo..hi)]
Zeros(n) == [i \in 1..n |-> 0]
Table(b, n, lo, hi) == [i \in 1..b |-> Ints(n, lo, hi)]
\* b is a late, early, noisy or unrelated version of a
Versions(a) ==
  LET n == Len(a) d == Pick(1..(n - 1)) IN
  OneOf(<<Zeros(d) \o a, SubSeq(a, d + 1, n), a, [i \in 1..n |-> -a[i]], Ints(Pick(1..(n + 9)), -20, 20), SubSeq(Zeros(d) \o a, 1, n),
          SubSeq(a, d + 1, n) \o Zeros(d), Zeros(d \div 2) \o a \o Zeros(n + d) \o [i \in 1..n |-> 3 * a[i]], SubSeq(a, d + 1, n) \o Zeros(2 * n) \o [i \in 1..n |-> -2 * a[i]], [i \in 1..n |-> a[n + 1 - i]], [i \in 1..n |-> a[i] + Pick(-1..1)], <<Pick(-3..3)>> >>)
ULag(k) == LET a == Ints(Pick(9..45), -20, 20) IN [u |-> "Lag", fam |-> "lag", a |-> a, b |-> Versions(a)]
UAlign(k) ==
  LET n == Pick(9..34) lo == OneOf(<<-20, -20, 0, -20, -20, 5>>) a == Ints(n, lo, 20) IN
  [u |-> Nth(<<"Galign", "Atrunc">>, k), fam |-> "align", a |-> a, b |-> Versions(a), sr |-> OneOf(<<8000, 48000, 11025, 44100>>)]
UVad(k) ==
  LET n == Pick(0..14) len == Pick(1..3) unit == OneOf(<<1000, 500, 250>>)
      lvl == 5000 \div unit
      one(c) == OneOf(<<[i \in 1..len |-> 0], [i \in 1..len |-> lvl], [i \in 1..len |-> lvl - 1], [i \in 1..len |-> Pick((-lvl - 1)..(lvl + 1))], [i \in 1..len |-> 0]>>)
  IN [u |-> "Vad", fam |-> "vad", chunks |-> [c \in 1..n |-> one(c)], unit |-> unit]
USeg(k) ==
  LET mode == Nth(<<"speech", "audio">>, k)  m == MinFrames(mode, P(mode))  ps == Pick(0..7)
      frames == IF k % 40 \in {10, 11} THEN Pick(1300..2600) ELSE OneOf(<<m - 1, m, m + 1, m + Pick(0..240), m + ps * P(mode) - 1, m + ps * P(mode), m + ps * P(mode) + 1, m + ps * P(mode) + 2, Pick(0..m)>>)
      sr == OneOf(<<8000, 16000>>)
  IN [u |-> "Seg", fam |-> "seg", mode |-> mode, frames |-> frames, extra |-> Pick(0..(Hop(sr) - 1)), sr |-> sr,
      ref |-> [parts |-> <<[k |-> "noise", seed |-> Seed(0), amp |-> 12000], [k |-> "shape", hop |-> Hop(sr), off |-> 14, a |-> Activity(1 + (MaxOf(0, frames - 14) \div 30))]>> \o OneOf(Bends)]]
UFloor(k) ==
  LET b == Pick(1..4)  m(n) == [i \in 1..b |-> [j \in 1..n |-> OneOf(<<Pick(-9000..6000), Pick(-4700..-4300), Pick(-2000..3000), -100000, 0>>)]]
  IN [u |-> "Floor", fam |-> "floor", r |-> m(Pick(1..6)), d |-> m(Pick(1..6))]
UNsim(k) ==
  LET whole == k % 40 = 29               \* patches as large as those of the two variants: two of their bands are judged
      b == IF whole THEN OneOf(<<21, 32>>) ELSE IF k % 80 = 78 THEN OneOf(<<21, 32>>) ELSE IF k % 80 = 39 THEN Pick(2..4) ELSE IF k % 20 = 19 THEN Pick(5..12) ELSE Pick(1..4)
      n == IF whole THEN (IF b = 21 THEN 30 ELSE 20) ELSE IF k % 80 = 39 THEN OneOf(<<20, 30>>) ELSE IF k % 80 = 78 THEN Pick(3..4) ELSE IF k % 20 = 19 THEN Pick(5..12) ELSE Pick(1..5)
      sc == OneOf(<<1, 10, 100>>)  hi == OneOf(<<60, 5, 1>>) * sc
      r == OneOf(<<Table(b, n, 0, hi), Table(b, n, 0, hi), [i \in 1..b |-> [j \in 1..n |-> hi]], [i \in 1..b |-> [j \in 1..n |-> 0]]>>)
      d == OneOf(<<Table(b, n, 0, hi), r, [r EXCEPT ![Pick(1..b)][Pick(1..n)] = Pick(0..hi)], [i \in 1..b |-> [j \in 1..n |-> hi - r[i][j]]], [i \in 1..b |-> [j \in 1..n |-> 0]],
                   [i \in 1..b |-> [j \in 1..n |-> r[i][IF j = 1 THEN n ELSE j - 1]]], [i \in 1..b |-> r[IF i = 1 THEN b ELSE i - 1]]>>)
  IN [u |-> "Nsim", fam |-> "nsim", r |-> r, d |-> d, scale |-> sc, judge |-> IF whole THEN <<OneOf(<<1, b>>), Pick(2..(b - 1))>> ELSE IF b * n > 40 THEN <<1, OneOf(<<b, b, Pick(1..b)>>), Pick(1..b)>> ELSE [i \in 1..b |-> i]]
\* matching of small patches: the degraded matrix holds some of them, somewhere
USelect(k) ==
  LET p == Pick(3..6)  b == Pick(2..3)  n == IF k % 12 = 11 THEN Pick(6..10) ELSE Pick(1..5)
      gaps == [i \in 1..n |-> OneOf(<<p, p, p, 2 * p, p + 1>>)]
      idx == [i \in 1..n |-> FirstStart(p) + FoldLeft(LAMBDA a, x : a + x, 0, SubSeq(gaps, 1, i - 1))]
      cols == idx[n] + p
      r == Table(b, cols, 0, 30)
      fd == OneOf(<<cols, Pick(1..(cols + 6)), Pick(p..cols), MaxOf(1, idx[n] + Pick(0..2)), MaxOf(1, idx[n] - (p \div 2) + Pick(-1..1))>>)
      order == OneOf(<<"same", "moved", "swapped", "random", "flat", "anti">>)
      off == Pick(-4..4)
      d == [i \in 1..b |-> [j \in 1..fd |->
             CASE order = "same"    -> IF j <= cols THEN r[i][j] ELSE Pick(0..30)
               [] order = "moved"   -> IF j + off >= 1 /\ j + off <= cols THEN r[i][j + off] ELSE Pick(0..30)
               [] order = "swapped" -> LET q == IF j > cols \div 2 THEN j - (cols \div 2) ELSE j + (cols \div 2) IN IF q >= 1 /\ q <= cols THEN r[i][q] ELSE 0
               [] order = "flat"    -> 7
               [] order = "anti"    -> IF j <= cols THEN 30 - r[i][j] ELSE 30
               [] OTHER             -> Pick(0..30)]]
  IN [u |-> "Select", fam |-> "select", r |-> r, d |-> d, p |-> p, idx |-> idx, radius |-> OneOf(<<0, 1, 2, 3, 100>>)]
UMap(k) ==
  LET n == OneOf(<<21, 32, 32>>)  mid == OneOf(<<10000000, 9990000, 9500000, 8000000, 6000000, 4000000, 2000000, 1500000, 0>>)  w == OneOf(<<0, 10, 20000, 900000>>)
      top(x) == IF x > 10000000 THEN 10000000 ELSE IF x < -2000000 THEN -2000000 ELSE x
  IN [u |-> "Map", fam |-> "map", model |-> OneOf(<<"default", "default", "narrow", "wide", "moved", "lifted">>), v |-> [i \in 1..n |-> top(mid + Pick((-w)..w))]]
ULevel(k) ==
  LET sr == 8000 n == Pick(1..3000) IN
  [u |-> "Level", fam |-> "level", ref |-> Sig(OneOf(<<"noise", "speech", "soft", "zero", "offset">>), n),
   deg |-> OneOf(<<<<>>, <<[op |-> "zero"]>>, <<[op |-> "noise", seed |-> Seed(0), amp |-> 500]>>, <<[op |-> "make", sig |-> Sig("noise", Pick(1..4000))]>> >>), num |-> OneOf(<<1, 5, 1, 1000, 50000>>), den |-> OneOf(<<1, 3, 700>>), sr |-> sr]
USpec(k) ==
  LET sr == Nth(<<8000, 16000, 48000, 44100, 11025, 22050, 32000, 8010>>, k)  mode == OneOf(<<"speech", "audio">>)
      n == IF k % 32 = 8 THEN N(sr, Pick(520..700), Pick(0..9)) ELSE OneOf(<<N(sr, 1, 0), N(sr, Pick(2..9), 0), N(sr, Pick(2..6), Pick(1..(Hop(sr) - 1))), Win(sr) - 1, N(sr, Pick(2..6), -1), IF k % 6 = 0 /\ sr < 12000 THEN N(sr, Pick(90..140), Pick(0..9)) ELSE N(sr, Pick(2..9), 7)>>)
      f == Pick(60..3500)  kind == OneOf(<<"tone", "noise", "speech", "zero", "pulses", "tone">>)
  IN [u |-> "Spec", fam |-> "spec", mode |-> mode, sr |-> sr, tone |-> IF kind = "tone" THEN f ELSE 0,
      ref |-> IF kind = "tone" THEN [n |-> n, parts |-> <<[k |-> "tone", f |-> f, amp |-> 12000]>>] ELSE Sig(kind, n)]

\* ---------------------------------------------------------------- files ----
UWav(k) ==
  LET huge == k % 400 = 399  ch == IF huge THEN 1 ELSE OneOf(<<1, 2, 3, 1, 5, 8, 2, 4, 6, 7, 17>>)  n == IF huge THEN 66000 + Pick(0..99) ELSE IF k % 50 = 49 THEN OneOf(<<1023, 1025, 4097>>) ELSE OneOf(<<0, 1, 2, 7, 30>>)
      v == OneOf(<<-32768, 32767, 0, 1, -1>>)
      d(i) == OneOf(<<v, Pick(-32768..32767), Pick(-9..9)>>)
  IN [u |-> "wav", fam |-> "wav", ch |-> ch, sr |-> OneOf(<<8000, 44100, 48000, 16000, 11025, 96000>>), bits |-> 16, tag |-> OneOf(<<1, 1, 65534>>), junk |-> Pick(0..3), data |-> [i \in 1..(n * ch) |-> d(i)],
      name |-> OneOf(<<".wav", ".wav", ".WAV", "", ".raw", " x.wav.bak", ".pcm", "-%41?x=1.wav", "#[*]~.wav">>)]
UWavBad(k) ==
  LET ch == OneOf(<<1, 2, 3>>)  n == OneOf(<<1, 5, 20>>)
      b == [u |-> "wav", fam |-> "wavbad", ch |-> ch, sr |-> 8000, bits |-> 16, tag |-> 1, junk |-> Pick(0..3), data |-> Ints(n * ch, -100, 100), compare |-> 1, gsr |-> OneOf(<<8000, 8000, 16000>>), mode |-> OneOf(<<"speech", "audio">>)]
      how == Nth(<<"missing", "dir", "text", "empty", "nofmt", "nodata", "noriff", "bits", "keep", "declare", "tag", "bits", "keep", "declare", "good", "part">>, k)
      hdr == OneOf(<<0, 3, 8, 11, 12, 15, 20, 30, 36, 40, 43>>)
  IN CASE how = "bits"    -> [b EXCEPT !.bits = OneOf(<<8, 24, 32>>)]
       [] how = "keep"    -> [b EXCEPT !.junk = 0] @@ [keep |-> OneOf(<<hdr, 44 + Pick(0..(2 * n * ch - 1))>>)]
       [] how = "declare" -> [b EXCEPT !.junk = Pick(0..2)] @@ [declare |-> 2 * ch * Pick(1..4)]
       [] how = "part"    -> b @@ [declare |-> IF ch = 1 THEN 0 ELSE -2]
       [] how = "tag"     -> [b EXCEPT !.tag = OneOf(<<3, 2, 6, 7, 85>>)]
       [] how = "good"    -> b
       [] OTHER           -> b @@ [break |-> how]

\* ----------------------------------------------------------------- plans ----
\* how many cases of which family decide which property, per unit of effort
Plan(p) ==
  CASE p = "C01" -> <<<<"any", 60>>, <<"reflimits", 57>>, <<"deglimits", 42>>, <<"silent", 18>>, <<"radius", 12>>, <<"short", 12>>, <<"loss", 9>>, <<"local", 9>>, <<"rates", 8>>, <<"self", 6>>, <<"lost", 12>>, <<"long", 6>>, <<"offset", 6>>, <<"anti", 6>>>>
    [] p = "C02" -> <<<<"reflimits", 114>>, <<"deglimits", 84>>, <<"mixed", 12>>, <<"wavbad", 96>>, <<"wav", 30>>, <<"seg", 40>>, <<"short", 24>>>>
    [] p = "C04" -> <<<<"wav", 400>>, <<"wavbad", 32>>>>
    [] p = "C05" -> <<<<"self", 90>>, <<"selfhigh", 8>>, <<"any", 40>>, <<"nsim", 60>>, <<"long", 6>>, <<"anti", 12>>>>
    [] p = "C06" -> <<<<"map", 160>>, <<"any", 60>>, <<"self", 12>>, <<"silent", 12>>, <<"lost", 12>>, <<"anti", 30>>>>
    [] p = "C07" -> <<<<"any", 60>>, <<"loss", 30>>, <<"local", 24>>, <<"vad", 12>>, <<"short", 12>>, <<"rates", 8>>, <<"lost", 36>>, <<"anti", 9>>, <<"long", 6>>>>
    [] p = "C08" -> <<<<"lag", 120>>, <<"align", 120>>, <<"delay", 78>>, <<"any", 40>>, <<"offset", 24>>, <<"long", 8>>>>
    [] p = "C09" -> <<<<"level", 80>>, <<"gain", 45>>, <<"any", 30>>, <<"long", 6>>, <<"anti", 4>>>>
    [] p = "C10" -> <<<<"spec", 96>>, <<"any", 30>>, <<"rates", 8>>, <<"long", 4>>>>
    [] p = "C11" -> <<<<"ufloor", 250>>, <<"floor", 12>>, <<"any", 12>>, <<"anti", 6>>>>
    [] p = "C12" -> <<<<"uvad", 150>>, <<"seg", 120>>, <<"vad", 72>>, <<"any", 12>>, <<"long", 6>>>>
    [] p = "C13" -> <<<<"seg", 120>>, <<"any", 40>>, <<"reflimits", 40>>, <<"short", 20>>, <<"long", 6>>>>
    [] p = "C14" -> <<<<"select", 300>>, <<"loss", 48>>, <<"short", 24>>, <<"radius", 12>>, <<"local", 8>>, <<"lost", 36>>, <<"anti", 24>>, <<"long", 6>>>>
    [] p = "C15" -> <<<<"select", 250>>, <<"short", 75>>, <<"loss", 30>>, <<"deglimits", 20>>, <<"lost", 48>>, <<"long", 6>>, <<"anti", 9>>>>
    [] p = "C16" -> <<<<"short", 24>>, <<"local", 72>>, <<"loss", 30>>, <<"any", 30>>, <<"align", 80>>, <<"delay", 13>>, <<"lost", 24>>, <<"long", 6>>, <<"anti", 12>>>>
    [] p = "C17" -> <<<<"nsim", 240>>>>
    [] OTHER -> <<>>
Make(fam, k) ==
  CASE fam = "any" -> FAny(k) [] fam = "rates" -> FRates(k) [] fam = "reflimits" -> FLimitsRef(k) [] fam = "deglimits" -> FLimitsDeg(k)
    [] fam = "mixed" -> FMixed(k) [] fam = "silent" -> FSilent(k) [] fam = "radius" -> FRadius(k) [] fam = "self" -> FSelf(k) [] fam = "selfhigh" -> FSelfHigh(k)
    [] fam = "delay" -> FDelay(k) [] fam = "gain" -> FGain(k) [] fam = "vad" -> FVad(k) [] fam = "loss" -> FLoss(k) [] fam = "lost" -> FLost(k) [] fam = "short" -> FShort(k)
    [] fam = "long" -> FLong(k) [] fam = "anti" -> FAnti(k) [] fam = "offset" -> FOffset(k)
    [] fam = "local" -> FLocal(k) [] fam = "floor" -> FFloor(k) [] fam = "lag" -> ULag(k) [] fam = "align" -> UAlign(k) [] fam = "uvad" -> UVad(k)
    [] fam = "seg" -> USeg(k) [] fam = "ufloor" -> UFloor(k) [] fam = "nsim" -> UNsim(k) [] fam = "select" -> USelect(k) [] fam = "map" -> UMap(k)
    [] fam = "level" -> ULevel(k) [] fam = "spec" -> USpec(k) [] fam = "wav" -> UWav(k) [] fam = "wavbad" -> UWavBad(k)
Batch(fam, n) == FoldLeft(LAMBDA a, k : LET c == Make(fam, k) IN IF fam = "gain" THEN a \o c ELSE Append(a, c), <<>>, [k \in 1..n |-> k - 1])

=============================================================================
