-------------------------------- MODULE Wav --------------------------------
(* Which files can be loaded, and what they load to.  e: a recorded attempt  *)
(* [ch, sr, bits, in (samples in file order), break, declare, keep, fam].    *)
EXTENDS Integers, Sequences

\* bytes of the header the harness writes before the samples
FramesDeclared(e) == (Len(e.in) + (e.declare \div 2)) \div e.ch
Readable(e) == /\ e["break"] = "" /\ e.tag \in {1, 65534} /\ e.keep < 0 /\ e.declare <= 0
               /\ e.ch >= 1 /\ (Len(e.in) + (e.declare \div 2)) % e.ch = 0
SixteenBit(e) == e.bits = 16
Loadable(e) == Readable(e) /\ SixteenBit(e)

RECURSIVE AddUp(_, _, _)
AddUp(s, from, n) == IF n = 0 THEN 0 ELSE s[from] + AddUp(s, from + 1, n - 1)
\* sum over the channels of each frame (the mean times the channel count)
FrameSums(e) == [k \in 1..FramesDeclared(e) |-> AddUp(e.in, (k - 1) * e.ch + 1, e.ch)]

\* what an error must say
CauseOk(e, err) ==
  IF Readable(e) /\ ~SixteenBit(e) THEN err.kind = "bits" /\ err.nums = <<e.bits>>
  ELSE IF ~Readable(e) /\ ~SixteenBit(e) THEN err.kind \in {"file", "bits"}
  ELSE err.kind = "file"
=============================================================================
