-------------------------------- MODULE Cli --------------------------------
(* The command line tool: what a command means, and a step by step model of   *)
(* a run that compares pair after pair and then writes its outputs.           *)
(* A command is a record                                                      *)
(*   sub       "wideband", "fullband" or "" (none given)                      *)
(*   ref, deg  file numbers, 0: option not given                              *)
(*   batch     batch file number, 0: not given                                *)
(*   unscaled  TRUE: --use_unscaled_speech_mos_mapping                        *)
(*   model     "" (not given), "default", "other", "missing"                  *)
(*   radius    -1: not given                                                  *)
(*   csv, debug  output file numbers, 0: not given, 3: cannot be written      *)
(*   verbose                                                                  *)
(*   extra     "" or a mistake on the command line                            *)
EXTENDS Integers, Sequences

CONSTANTS Outcome(_, _, _),   \* configuration, reference, degraded -> [ok, score, details]
          BatchRows(_)        \* batch number -> [ok, rows] (rows of <<reference, degraded>>)

DefaultRadius == 60

\* ------------------------------------------------ the meaning of a command ----
Valid(c) ==
  /\ c.extra = ""
  /\ c.sub \in {"wideband", "fullband"}
  /\ c.unscaled => c.sub = "wideband"
  /\ c.model # "" => c.sub = "fullband"
  /\ (c.ref # 0) = (c.deg # 0)
  /\ c.batch # 0 => c.ref = 0
Conf(c) == [sub |-> c.sub, unscaled |-> c.unscaled, model |-> IF c.sub # "fullband" THEN "none" ELSE IF c.model = "" THEN "default" ELSE c.model,
            radius |-> IF c.radius < 0 THEN DefaultRadius ELSE c.radius]
List(c) == IF c.batch # 0 THEN (IF BatchRows(c.batch).ok THEN BatchRows(c.batch).rows ELSE <<>>)
           ELSE IF c.ref # 0 THEN << <<c.ref, c.deg>> >> ELSE <<>>
Ready(c) == (c.batch # 0 => BatchRows(c.batch).ok) /\ (c.sub = "fullband" => c.model # "missing")
Writable(c) == c.csv # 3 /\ c.debug # 3
Of(c, p) == Outcome(Conf(c), p[1], p[2])
Verdict(c) ==
  IF ~Valid(c) THEN "usage"
  ELSE IF ~Ready(c) \/ \E i \in 1..Len(List(c)) : ~Of(c, List(c)[i]).ok THEN "fail"
  ELSE IF ~Writable(c) THEN "unwritten"
  ELSE "ok"
\* what an accepted, successful run reports
Scores(c) == [i \in 1..Len(List(c)) |-> Of(c, List(c)[i]).score]
Rows(c) == [i \in 1..Len(List(c)) |-> <<List(c)[i][1], List(c)[i][2], Of(c, List(c)[i]).score>>]
Details(c) == [i \in 1..Len(List(c)) |-> Of(c, List(c)[i]).details]

\* files after the run, as functions from output number to contents
CsvAfter(csv, c) == IF Verdict(c) = "ok" /\ c.csv # 0 THEN [csv EXCEPT ![c.csv] = [there |-> TRUE, rows |-> Rows(c)]] ELSE csv
LogAfter(log, c) == IF Verdict(c) = "ok" /\ c.debug # 0 THEN [log EXCEPT ![c.debug] = @ \o Details(c)] ELSE log
=============================================================================
