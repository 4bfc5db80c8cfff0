------------------------------ MODULE TraceCli ------------------------------
(* Recorded histories of the command line tool, replayed on the meaning of   *)
(* its commands (Cli).  A world begins with its batch files and the contents *)
(* of the output files; Base events give the outcome of a pair on its own    *)
(* (the tool run alone for C18, the library called directly otherwise); Run  *)
(* events are commands and everything they left behind.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Check
Log == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES l, world, base, csv, log
tvars == <<l, world, base, csv, log>>
e == Log[l]
Is(name) == l <= Len(Log) /\ e.ev = name /\ l' = l + 1
Report(p, what) == PrintT("REJECT " \o p \o " line " \o ToString(l) \o " case " \o ToString(e["case"]) \o " : " \o what) /\ FALSE
Must(p, what, c) == IF p \notin Check THEN TRUE ELSE IF c THEN TRUE ELSE Report(p, what)

\* base is a function from <<configuration, reference, degraded>>
Known(conf, r, d) == <<conf, r, d>> \in DOMAIN base
TheOutcome(conf, r, d) == base[<<conf, r, d>>]
TheBatch(b) == world.batches[b]
CT == INSTANCE Cli WITH Outcome <- LAMBDA conf, r, d : [ok |-> TheOutcome(conf, r, d).ok, score |-> TheOutcome(conf, r, d).score, details |-> TheOutcome(conf, r, d).entry],
                        BatchRows <- LAMBDA b : TheBatch(b)

TWorld == Is("World") /\ world' = [names |-> e.names, batches |-> e.batches] /\ base' = <<>> /\ csv' = e.csv /\ log' = e.log
TBase == Is("Base") /\ base' = (<<e.conf, e.ref, e.deg>> :> [ok |-> e.ok, score |-> e.score, entry |-> e.entry, tables |-> e.tables, cause |-> e.cause]) @@ base
         /\ UNCHANGED <<world, csv, log>>

c == e.cmd
Verdict == CT!Verdict(c)
\* the results file as it is on disk
OnDisk(f) == [there |-> f.there, head |-> <<"reference", "degraded", "moslqo">>,
              rows |-> [i \in 1..Len(f.rows) |-> <<world.names[f.rows[i][1]], world.names[f.rows[i][2]], f.rows[i][3]>>]]
WantCsv == IF Verdict = "ok" /\ c.csv # 0 THEN [csv EXCEPT ![c.csv] = OnDisk([there |-> TRUE, rows |-> CT!Rows(c)])] ELSE csv
WantLog == CT!LogAfter(log, c)
\* what a run may leave whose other output cannot be written
Partial == Verdict = "unwritten" /\ e.rc # 0
MayLog(f) == e.log[f] = log[f] \/ (Partial /\ f = c.debug /\ e.log[f] = log[f] \o CT!Details(c))
MayCsv(f) == e.csv[f] = csv[f] \/ (Partial /\ f = c.csv /\ e.csv[f] = OnDisk([there |-> TRUE, rows |-> CT!Rows(c)]))
Failing == {i \in 1..Len(CT!List(c)) : ~CT!Of(c, CT!List(c)[i]).ok}
Sections == [i \in 1..Len(CT!List(c)) |->
               LET p == CT!List(c)[i] o == TheOutcome(CT!Conf(c), p[1], p[2])
               IN [ref |-> world.names[p[1]], deg |-> world.names[p[2]], score |-> o.score, tables |-> o.tables, order |-> "paths-score-bands-patches"]]
\* the score column is judged as printed when the score itself is not at issue
Printed(rows) == [i \in 1..Len(rows) |-> IF i <= Len(e.scores) THEN e.scores[i] ELSE "none"]

TRun ==
  /\ Is("Run")
  \* --- batch mode
  /\ Must("C18", "every row compared once, in order, as if run alone", Verdict = "ok" => e.rc = 0 /\ e.scores = CT!Scores(c))
  /\ Must("C18", "a pair that cannot be compared fails the run, no scores", Verdict = "fail" => e.rc # 0 /\ e.scores = <<>>)
  /\ Must("C18", "the cause is named", Verdict = "fail" /\ CT!Ready(c) /\ Failing # {} => \E i \in Failing : e.cause = TheOutcome(CT!Conf(c), CT!List(c)[i][1], CT!List(c)[i][2]).cause)
  /\ Must("C18", "something is said about the failure", Verdict = "fail" => e.cause # "")
  \* --- output files
  /\ Must("C19", "the results file holds the header and one row per pair, as printed",
          Verdict = "ok" /\ c.csv # 0 /\ e.rc = 0 =>
            /\ Len(e.scores) = Len(CT!List(c))
            /\ e.csv[c.csv] = OnDisk([there |-> TRUE, rows |-> [i \in 1..Len(CT!List(c)) |-> <<CT!List(c)[i][1], CT!List(c)[i][2], e.scores[i]>>]]))
  /\ Must("C19", "other results files are left alone", \A f \in 1..2 : (f # c.csv \/ Verdict # "ok" \/ e.rc # 0) => MayCsv(f))
  /\ Must("C19", "the details of every comparison are appended", (e.rc = 0 /\ Verdict = "ok" => e.log = WantLog) /\ (e.rc # 0 \/ Verdict # "ok" => \A f \in 1..2 : MayLog(f)))
  /\ Must("C19", "a run whose output cannot be written fails", Verdict = "unwritten" => e.rc # 0)
  /\ Must("C19", "earlier details stay", e.kept /\ e.stray = <<>>)
  \* --- options
  /\ Must("C20", "a usage error is reported before anything happens",
          Verdict = "usage" => e.rc # 0 /\ e.scores = <<>> /\ e.usage /\ e.csv = csv /\ e.log = log)
  /\ Must("C20", "a valid command is accepted", Verdict = "ok" => e.rc = 0)
  /\ Must("C20", "options take effect as in the library", Verdict = "ok" => e.scores = CT!Scores(c))
  /\ Must("C20", "what cannot be compared is not scored", Verdict = "fail" => e.rc # 0 /\ e.scores = <<>>)
  /\ Must("C20", "options take effect in what is written", Verdict = "ok" /\ c.debug # 0 => e.log = WantLog)
  \* --- verbose output
  /\ Must("C21", "one section per pair with its paths, score and tables", Verdict = "ok" => e.sections = (IF c.verbose THEN Sections ELSE <<>>) /\ e.loose = 0)
  /\ Must("C21", "nothing else depends on it", e.asplain)
  /\ Must("C21", "scores are the same with and without it", Verdict = "ok" => e.rc = 0 /\ e.scores = CT!Scores(c))
  \* the next command starts from the files as they are now
  /\ csv' = e.csv /\ log' = e.log
  /\ UNCHANGED <<world, base>>
TWorldEnd == Is("WorldEnd") /\ world' = <<>> /\ base' = <<>> /\ csv' = <<>> /\ log' = <<>>

TInit == l = 1 /\ world = <<>> /\ base = <<>> /\ csv = <<>> /\ log = <<>>
TNext == TWorld \/ TBase \/ TRun \/ TWorldEnd
TSpecification == TInit /\ [][TNext]_tvars
Accepted ==
  LET n == TLCGet("stats").diameter - 1
  IN n = Len(Log) \/ (PrintT("STOPPED at line " \o ToString(n + 1) \o " of " \o ToString(Len(Log))) /\ FALSE)
=============================================================================
