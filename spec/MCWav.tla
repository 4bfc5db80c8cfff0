------------------------------- MODULE MCWav -------------------------------
(* Reading a small wav file sample by sample and mixing it down, against the *)
(* definition of what a file loads to (units of 1/32767 times channels).     *)
EXTENDS Wav, TLC
CONSTANTS CHANNELS, FRAMES, SAMPLES, BITS, CUTS, Legacy

FewSamples == {-32768, -1, 0, 32767}
DeepSamples == {-32768, 1, 32767}

VARIABLES file, pos, row, rows, phase, out
vars == <<file, pos, row, rows, phase, out>>

\* cut: samples missing from the end of the data the header announces
Init ==
  /\ \E ch \in CHANNELS, n \in FRAMES, b \in BITS, cut \in CUTS :
       \E s \in [1..(ch * n) -> SAMPLES] :
         file = [ch |-> ch, in |-> s, bits |-> b, cut |-> IF cut > ch * n THEN ch * n ELSE cut]
  /\ pos = 0 /\ row = <<>> /\ rows = <<>> /\ phase = "open" /\ out = <<>>

Open == /\ phase = "open"
        /\ phase' = IF file.bits # 16 THEN "bits" ELSE "read"
        /\ UNCHANGED <<file, pos, row, rows, out>>
There == Len(file.in) - file.cut
Read == /\ phase = "read" /\ pos < Len(file.in)
        /\ IF pos < There
           THEN /\ LET r == Append(row, file.in[pos + 1]) IN
                   IF Len(r) = file.ch THEN rows' = Append(rows, r) /\ row' = <<>> ELSE row' = r /\ rows' = rows
                /\ pos' = pos + 1 /\ UNCHANGED <<file, phase, out>>
           ELSE /\ phase' = IF "partial" \in Legacy THEN "mix" ELSE "error"
                /\ UNCHANGED <<file, pos, row, rows, out>>
ReadAll == phase = "read" /\ pos = Len(file.in) /\ phase' = "mix" /\ UNCHANGED <<file, pos, row, rows, out>>
Clamp(x) == IF "clamp" \in Legacy /\ x < -32767 THEN -32767 ELSE x
RECURSIVE SumOf(_, _)
SumOf(r, n) == IF n = 0 THEN 0 ELSE Clamp(r[n]) + SumOf(r, n - 1)
Mix == /\ phase = "mix"
       /\ out' = [i \in 1..Len(rows) |-> SumOf(rows[i], IF "front" \in Legacy /\ file.ch > 2 THEN 2 ELSE file.ch)]
       /\ phase' = "done" /\ UNCHANGED <<file, pos, row, rows>>
Next == Open \/ Read \/ ReadAll \/ Mix
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AsRecord == [ch |-> file.ch, bits |-> file.bits, in |-> file.in, tag |-> 1, keep |-> IF file.cut > 0 THEN There ELSE -1,
             declare |-> 0, break |-> ""]
Ends == <>(phase \in {"done", "bits", "error"})
\* C02: exactly the loadable files are loaded, the others fail with their cause
OnlyLoadable == /\ phase = "done" => Loadable(AsRecord)
                /\ phase \in {"bits", "error"} => ~Loadable(AsRecord)
                /\ phase = "bits" => CauseOk(AsRecord, [kind |-> "bits", nums |-> <<file.bits>>])
                /\ phase = "error" => CauseOk(AsRecord, [kind |-> "file"])
\* C04
MeansAsDefined == phase = "done" => out = FrameSums(AsRecord) /\ Len(out) = Len(file.in) \div file.ch
\* exchanging channels
Permuted(s, p) == [i \in 1..Len(s) |-> s[((i - 1) \div file.ch) * file.ch + p[1 + ((i - 1) % file.ch)]]]
ChannelsExchangeable == phase = "done" =>
  \A p \in [1..file.ch -> 1..file.ch] :
    (\A a, b \in 1..file.ch : a # b => p[a] # p[b]) => FrameSums([AsRecord EXCEPT !.in = Permuted(file.in, p)]) = out
=============================================================================
