------------------------------- MODULE MCCli -------------------------------
(* Runs of the tool, one comparison at a time, over shared output files.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxRuns,
          Writes,     \* "end" or "each": when outputs are written
          OnFail,     \* "stop" or "skip": what a failing pair does
          LogMode,    \* "append", "truncate" or "last"
          Unwritable  \* "unwritten" or "print": what a results file that cannot be written leads to

\* two comparable pairs, one that fails; the radius, the mapping and the model matter
MCOutcome(conf, r, d) ==
  IF r = 3 \/ d = 3 THEN [ok |-> FALSE, score |-> 0, details |-> 0]
  ELSE LET s == 100 * r + 10 * d + (IF conf.unscaled THEN 1 ELSE 0) + (IF conf.sub = "fullband" THEN 2 ELSE 0) + (IF conf.radius < 60 THEN 4 ELSE 0)
       IN [ok |-> TRUE, score |-> s, details |-> 1000 + s]
Batches == << <<>>, << <<1, 2>>, <<2, 1>> >>, << <<1, 2>>, <<3, 2>>, <<2, 2>> >>, << <<2, 2>>, <<2, 2>> >> >>
MCBatch(b) == IF b > Len(Batches) THEN [ok |-> FALSE, rows |-> <<>>] ELSE [ok |-> TRUE, rows |-> Batches[b]]
CT == INSTANCE Cli WITH Outcome <- MCOutcome, BatchRows <- MCBatch

Plain == [sub |-> "wideband", ref |-> 0, deg |-> 0, batch |-> 0, unscaled |-> FALSE, model |-> "", radius |-> -1, csv |-> 1, debug |-> 1, verbose |-> FALSE, extra |-> ""]
Cmds ==
  {[Plain EXCEPT !.batch = b, !.csv = o[1], !.debug = o[2], !.radius = r] : b \in 1..5, o \in {<<1, 1>>, <<0, 2>>, <<2, 0>>}, r \in {-1, 2}}
  \cup {[Plain EXCEPT !.batch = b, !.csv = o[1], !.debug = o[2]] : b \in 2..3, o \in {<<3, 1>>, <<1, 3>>, <<3, 3>>}}
  \cup {[Plain EXCEPT !.ref = r, !.deg = d, !.unscaled = u, !.csv = 1, !.debug = 1] : r \in {0, 1, 3}, d \in {0, 2}, u \in BOOLEAN}
  \cup {[Plain EXCEPT !.sub = "fullband", !.batch = b, !.model = m] : b \in {2, 3}, m \in {"", "missing"}}
  \cup {[Plain EXCEPT !.ref = 1, !.deg = 2, !.batch = b, !.extra = x, !.sub = s] : b \in {0, 2}, x \in {"", "unknown"}, s \in {"wideband", ""}}

VARIABLES pc, cmd, k, acc, csv, log, out, hist
vars == <<pc, cmd, k, acc, csv, log, out, hist>>
Nothing == [there |-> FALSE, rows |-> <<>>]
Init == pc = "idle" /\ cmd = Plain /\ k = 0 /\ acc = <<>> /\ csv = [i \in 1..2 |-> Nothing] /\ log = [i \in 1..2 |-> <<>>] /\ out = <<>> /\ hist = <<>>

Start(c) ==
  /\ pc = "idle" /\ Len(hist) < MaxRuns
  /\ cmd' = c /\ k' = 1 /\ acc' = <<>> /\ out' = <<>>
  /\ pc' = IF ~CT!Valid(c) THEN "usage" ELSE IF ~CT!Ready(c) THEN "fail" ELSE "compare"
  /\ UNCHANGED <<csv, log, hist>>
LogWith(new) == IF cmd.debug \notin 1..2 THEN log
                ELSE [log EXCEPT ![cmd.debug] = IF LogMode = "append" THEN @ \o new ELSE IF LogMode = "truncate" THEN new ELSE IF new = <<>> THEN @ ELSE Append(@, new[Len(new)])]
Compare ==
  /\ pc = "compare" /\ k <= Len(CT!List(cmd))
  /\ LET p == CT!List(cmd)[k] o == CT!Of(cmd, p) IN
     IF ~o.ok THEN /\ pc' = IF OnFail = "stop" THEN "fail" ELSE pc
                   /\ k' = k + 1 /\ UNCHANGED <<acc, log>>
     ELSE /\ acc' = Append(acc, <<p[1], p[2], o.score, o.details>>) /\ k' = k + 1 /\ UNCHANGED pc
          /\ log' = IF Writes = "each" THEN LogWith(<<o.details>>) ELSE log
  /\ UNCHANGED <<cmd, csv, out, hist>>
Compared == pc = "compare" /\ k > Len(CT!List(cmd)) /\ pc' = "debug" /\ UNCHANGED <<cmd, k, acc, csv, log, out, hist>>
WriteDebug ==
  /\ pc = "debug" /\ pc' = IF cmd.debug = 3 THEN "unwritten" ELSE "csv"
  /\ log' = IF Writes = "end" THEN LogWith([i \in 1..Len(acc) |-> acc[i][4]]) ELSE log
  /\ UNCHANGED <<cmd, k, acc, csv, out, hist>>
WriteCsv ==
  /\ pc = "csv" /\ pc' = IF cmd.csv = 3 THEN Unwritable ELSE "print"
  /\ csv' = IF cmd.csv \in 1..2 THEN [csv EXCEPT ![cmd.csv] = [there |-> TRUE, rows |-> [i \in 1..Len(acc) |-> <<acc[i][1], acc[i][2], acc[i][3]>>]]] ELSE csv
  /\ UNCHANGED <<cmd, k, acc, log, out, hist>>
Print == pc = "print" /\ out' = [i \in 1..Len(acc) |-> acc[i][3]] /\ pc' = "ok" /\ UNCHANGED <<cmd, k, acc, csv, log, hist>>
Exit == pc \in {"usage", "fail", "unwritten", "ok"} /\ hist' = Append(hist, [cmd |-> cmd, verdict |-> pc, out |-> out]) /\ pc' = "idle" /\ UNCHANGED <<cmd, k, acc, csv, log, out>>
Next == (\E c \in Cmds : Start(c)) \/ Compare \/ Compared \/ WriteDebug \/ WriteCsv \/ Print \/ Exit
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ guarantees ----
\* C18, C20: a finished run reports what its command means
AsMeant == \A i \in 1..Len(hist) : hist[i].verdict = CT!Verdict(hist[i].cmd)
              /\ hist[i].out = IF hist[i].verdict = "ok" THEN CT!Scores(hist[i].cmd) ELSE <<>>
\* C18: scores of a batch are those of its pairs compared alone
Alone(c, p) == [c EXCEPT !.batch = 0, !.ref = p[1], !.deg = p[2]]
AsAlone == \A i \in 1..Len(hist) : hist[i].verdict = "ok" /\ hist[i].cmd.batch # 0 =>
              hist[i].out = [j \in 1..Len(CT!List(hist[i].cmd)) |-> CT!Scores(Alone(hist[i].cmd, CT!List(hist[i].cmd)[j]))[1]]
\* C19: between runs the files are what the history says
RECURSIVE LogOf(_, _)
LogOf(h, f) == IF h = <<>> THEN <<>>
               ELSE LogOf(SubSeq(h, 1, Len(h) - 1), f) \o (LET x == h[Len(h)] IN IF x.verdict \in {"ok", "unwritten"} /\ x.cmd.debug = f THEN CT!Details(x.cmd) ELSE <<>>)
LastCsv(f) == {i \in 1..Len(hist) : hist[i].verdict = "ok" /\ hist[i].cmd.csv = f}
CsvOf(f) == IF LastCsv(f) = {} THEN Nothing
            ELSE LET i == CHOOSE x \in LastCsv(f) : \A y \in LastCsv(f) : y <= x IN [there |-> TRUE, rows |-> CT!Rows(hist[i].cmd)]
FilesExact == pc = "idle" => \A f \in 1..2 : log[f] = LogOf(hist, f) /\ csv[f] = CsvOf(f)
\* C19: earlier details are never lost
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
AppendOnly == [][\A f \in 1..2 : IsPrefixOf(log[f], log'[f])]_vars
\* C19, C20: rejected and failing runs leave every file alone
NoTraceOfFailure == pc \in {"usage", "fail"} => \A f \in 1..2 : log[f] = LogOf(hist, f) /\ csv[f] = CsvOf(f)
=============================================================================
