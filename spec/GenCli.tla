------------------------------- MODULE GenCli -------------------------------
(* Histories of the command line tool for C18, C19 and C20: random behaviours *)
(* (TLC's simulator) of runs over one set of signal files, batch files and    *)
(* output files, each finished behaviour written with concrete files.         *)
EXTENDS Families

VARIABLES hist, setup
gvars == <<hist, setup>>
Prop == IOEnv.GEN_PROP

\* paths are kept as given, however they are spelled
NamesOf(x) == << OneOf(<<"a.wav", "./a.wav", "A.WAV">>), OneOf(<<"b one.wav", "sub/../b one.wav", "b  one.wav ">>), OneOf(<<"sub/c.wav", "./sub//c.wav">>),
                 "d,two.wav", OneOf(<<"#e-5.wav", "5", "e.5.wav">>), OneOf(<<" f \"q\".wav", "'f'.wav">>) >>
NFiles == 6
\* 1, 2: a signal and a version of it; 3, 4: another; 5: a further version of 1; 6: something that cannot be compared
World(x) ==
  LET a == Sig(OneOf(<<"speech", "noise", "mix">>), N(8000, Pick(100..125), Pick(0..20)))
      \* more than a dozen patches, sometimes
      b == Sig(OneOf(<<"speech", "noise", "mix">>), N(8000, IF Prop = "C21" /\ Pick(1..4) = 1 THEN Pick(380..440) ELSE Pick(100..125), Pick(0..20)))
      mild(sig) == OneOf(<< <<[op |-> "noise", seed |-> Seed(0), amp |-> Pick({300, 2500})]>>, <<[op |-> "clip", amp |-> 3000]>>, <<[op |-> "lowpass", k |-> Pick(2..9)]>>,
                           <<[op |-> "zero", from |-> Pick(0..4000), to |-> Pick(4500..6000)], [op |-> "noise", seed |-> Seed(0), amp |-> 300]>>, <<[op |-> "crush", q |-> 4096]>> >>)
      \* content displaced by up to three patches: what is found depends on the radius
      moved(y) == LET at == 160 * Pick(14..30) d == 160 * Pick({8, 12, 25, 40, 60}) + Pick(0..300) IN
                  <<[op |-> "swap", from |-> at, from2 |-> at + d, n |-> 160 * Pick(15..30)], [op |-> "noise", seed |-> Seed(0), amp |-> 200]>>
      \* nothing in common: the lowest scores
      unlike(y) == OneOf(<< <<[op |-> "make", sig |-> Sig(OneOf(<<"tone", "gated", "pulses">>), N(8000, Pick(100..125), 0))]>>, <<[op |-> "noise", seed |-> Seed(0), amp |-> 20000]>> >>)
      bad == OneOf(<<"missing", "garbage", "bits", "rate", "short">>)
      f(sig, ops) == [kind |-> "wav", sr |-> 8000, ref |-> sig, deg |-> ops, ch |-> Pick(1..2)]
  IN << f(a, <<>>), f(a, mild(a)), f(b, <<>>), f(b, mild(b)),
        f(a, OneOf(<<mild(a), moved(0), moved(1), mild(a), unlike(0)>>)),
        CASE bad = "rate" -> [kind |-> "wav", sr |-> 16000, ref |-> Sig("noise", 20000), deg |-> <<>>, ch |-> 1]
          [] bad = "short" -> [kind |-> "wav", sr |-> 8000, ref |-> Sig("noise", 300), deg |-> <<>>, ch |-> 1]
          [] OTHER -> [kind |-> bad, sr |-> 8000] >>
GoodPairs == << <<1, 2>>, <<3, 4>>, <<1, 1>>, <<1, 5>>, <<5, 1>>, <<2, 1>>, <<3, 3>>, <<5, 2>>, <<4, 3>> >>
BadPairs == << <<1, 6>>, <<6, 2>>, <<6, 6>>, <<3, 6>> >>
GoodRows(n) == [i \in 1..n |-> OneOf(GoodPairs)]
Styles == <<"lf", "crlf", "noeol", "header", "quoted", "blank", "lf">>
\* 1, 2: only comparable pairs; 3: one that fails at some place; 4: no rows; 5: repetitions; 6: cannot be read; 7: does not exist
WorldBatches(rows) ==
  << [style |-> OneOf(Styles), rows |-> GoodRows(rows)], [style |-> OneOf(Styles), rows |-> GoodRows(Pick(1..3))],
     [style |-> OneOf(Styles), rows |-> GoodRows(OneOf(<<0, 1, 2, 1, 2, 13>>)) \o <<OneOf(BadPairs)>> \o GoodRows(OneOf(<<0, 1, 2, 1, 2, 11>>))],
     [style |-> OneOf(Styles), rows |-> <<>>],
     LET p == OneOf(GoodPairs) q == OneOf(GoodPairs) IN [style |-> OneOf(Styles), rows |-> OneOf(<< <<p, p, q, p>>, <<q, p, p>>, <<p, q, p, q>> >>)],
     [style |-> OneOf(<<"onecolumn", "binary">>), rows |-> GoodRows(2)],
     [style |-> "missing", rows |-> <<>>] >>

Blank == [sub |-> "wideband", ref |-> 0, deg |-> 0, batch |-> 0, unscaled |-> FALSE, model |-> "", radius |-> -1, csv |-> 0, debug |-> 0, verbose |-> FALSE, extra |-> "", order |-> 0]
\* 3: a place where nothing can be written
Outs == IF Prop = "C19" THEN <<0, 1, 1, 2, 0, 1, 1, 2, 1, 1, 2, 3>> ELSE <<0, 1, 1, 2>>
Common(x) ==
  LET sub == OneOf(<<"wideband", "fullband">>) IN
  [Blank EXCEPT !.sub = sub, !.unscaled = IF sub = "wideband" THEN Pick({TRUE, FALSE}) ELSE FALSE, !.model = IF sub = "fullband" THEN OneOf(<<"", "default", "other", "other", "">>) ELSE "",
    !.radius = OneOf(<<-1, -1, 0, 0, 1, 1, 2, 5, 60, 61, 512, 4096, 65536, 1073741824>>), !.csv = OneOf(Outs), !.debug = OneOf(Outs), !.verbose = Pick({TRUE, FALSE}), !.order = Pick(1..1000000)]
Input(c) ==
  LET p == OneOf(<<OneOf(GoodPairs), OneOf(GoodPairs), OneOf(GoodPairs), OneOf(BadPairs)>>)
      b == OneOf(<<1, 1, 2, 2, 3, 4, 5, 5, 6, 7>>)
  IN IF Pick(1..5) <= 2 THEN [c EXCEPT !.ref = p[1], !.deg = p[2]] ELSE [c EXCEPT !.batch = b]
Faults == <<"halfref", "halfdeg", "bothref", "bothdeg", "all", "nosub", "unknown", "radiustext", "radiusneg", "noval", "positional", "dup", "badsub", "unscaledfull", "modelwide", "modelmissing", "noinput", "noargs", "dupbatch", "radiusempty", "radiusfloat">>
Mistake(c) ==
  LET f == OneOf(Faults) p == OneOf(GoodPairs) IN
  CASE f = "halfref" -> [c EXCEPT !.ref = p[1], !.deg = 0, !.batch = 0]
    [] f = "halfdeg" -> [c EXCEPT !.ref = 0, !.deg = p[2], !.batch = 0]
    [] f = "bothref" -> [c EXCEPT !.ref = p[1], !.deg = 0, !.batch = 1]
    [] f = "bothdeg" -> [c EXCEPT !.ref = 0, !.deg = p[2], !.batch = 2]
    [] f = "all"     -> [c EXCEPT !.ref = p[1], !.deg = p[2], !.batch = 1]
    [] f = "nosub"   -> [c EXCEPT !.sub = "", !.unscaled = FALSE, !.model = ""]
    [] f = "unscaledfull" -> [c EXCEPT !.sub = "fullband", !.unscaled = TRUE, !.model = ""]
    [] f = "modelwide"    -> [c EXCEPT !.sub = "wideband", !.unscaled = FALSE, !.model = "default"]
    [] f = "modelmissing" -> [c EXCEPT !.sub = "fullband", !.unscaled = FALSE, !.model = "missing"]
    [] f = "noinput" -> [c EXCEPT !.ref = 0, !.deg = 0, !.batch = 0]
    [] f = "noargs"  -> [Blank EXCEPT !.sub = ""]
    [] OTHER         -> [c EXCEPT !.extra = f]
Command(x) == LET c == Input(Common(0)) IN IF Pick(1..10) <= (IF Prop = "C20" THEN 5 ELSE 2) THEN Mistake(c) ELSE c

\* Radius 60 reaches 60 * 30 = 1800 frames of 160 samples: two late bursts 1795 and 1805 frames
\* early tell the default from its neighbours.
Probe ==
  LET early(n) == << [op |-> "swap", from |-> 160 * 1950, from2 |-> 160 * (1950 - n), n |-> 160 * 40] >>
      sig == [n |-> 160 * 2010, parts |-> <<[k |-> "speech", seed |-> 77, amp |-> 12000]>>]
      quiet(x) == [op |-> "zero", from |-> 160 * 70, to |-> 160 * 1950]
      f(ops) == [kind |-> "wav", sr |-> 8000, ref |-> sig, deg |-> <<quiet(0), [op |-> "zero", from |-> 160 * 1990, to |-> 160 * 2010]>> \o ops, ch |-> 1]
      cmd(d) == [Blank EXCEPT !.ref = 1, !.deg = d, !.debug = 1]
  IN [u |-> "cli", fam |-> "probe", names |-> NamesOf(0), files |-> <<f(<<>>), f(early(1795)), f(early(1805))>>, batches |-> <<>>, pre |-> 0, runs |-> IF IOEnv.GEN_PROBE = "1" THEN <<cmd(2), cmd(3)>> ELSE <<[cmd(2) EXCEPT !.radius = 59], [cmd(3) EXCEPT !.radius = 61]>>]
Probing == IOEnv.GEN_PROBE # "0"

Steps == IF Probing THEN 0 ELSE IF Prop = "C19" THEN 6 ELSE 4
Init == hist = <<>> /\ setup \in 1..50
Run == Len(hist) < Steps /\ hist' = Append(hist, Command(0)) /\ UNCHANGED setup
\* some histories begin with a long batch
Case == IF Probing THEN Probe
        ELSE LET long == Prop \in {"C18", "C19", "C21"} /\ Pick(1..6) = 1 IN
             [u |-> "cli", fam |-> "cli", names |-> NamesOf(0), files |-> World(0), batches |-> WorldBatches(IF long THEN Pick(17..41) ELSE OneOf(<<2, 3, 4, 3, 9, 12>>)), pre |-> Pick(0..6),
              runs |-> IF long THEN <<[Common(0) EXCEPT !.batch = 1]>> \o Tail(hist) ELSE hist]
Emit ==
  /\ Len(hist) = Steps
  /\ Serialize(ToJson(Case) \o "\n", IOEnv.GEN_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
  /\ hist' = Append(hist, Blank) /\ UNCHANGED setup
Next == Run \/ Emit
Spec == Init /\ [][Next]_gvars
=============================================================================
