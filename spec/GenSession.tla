----------------------------- MODULE GenSession -----------------------------
(* Histories for the conformance check of C03: random behaviours (TLC's       *)
(* simulator) of calls on shared managers, over pairs that differ in rate,    *)
(* length and in whether and where they fail.  Each finished behaviour is     *)
(* appended to GEN_OUT with concrete signals for its pairs.                   *)
EXTENDS Families

VARIABLES hist, setup
gvars == <<hist, setup>>

KindsOf == <<"plain8", "plain16", "plain11", "mixed", "noref", "nodeg", "missing", "garbage", "silent", "long8", "loud8", "empty", "plain48", "copy8", "late8", "sib1", "sib2", "sib3", "sib4">>
\* Siblings share a base signal: same length, peak, energy, first and last samples, other content.
\* (s: the seed that the pairs of one history have in common)
Siblings(s) ==
  LET n == N(8000, 62, 7)
      base == [n |-> n, parts |-> <<[k |-> "noise", seed |-> s, amp |-> 5000], [k |-> "speech", seed |-> s, amp |-> 9000], [k |-> "pulse", at |-> 4000, amp |-> 30000]>>]
      blocks == <<[op |-> "swap", from |-> 4500, from2 |-> 7000, n |-> 1500]>>
      coarse == <<[op |-> "crush", q |-> 2048]>>
      of(r, d) == [sr |-> 8000, ref |-> base, refops |-> r, deg |-> d]
  IN << of(<<>>, coarse), of(blocks, coarse), of(blocks, blocks), of(<<[op |-> "zero", from |-> 8000, to |-> 8001]>>, <<>>) >>
\* concrete signals of one kind
PairOf(kind, s) ==
  LET b(sr, f, extra) == [sr |-> sr, ref |-> Sig(OneOf(<<"noise", "speech", "mix">>), N(sr, f, Pick(0..50))), deg |-> Op(N(sr, f, 0), sr)] @@ extra
      none == [u |-> "pipe"]
  IN CASE kind = "plain8"  -> b(8000, Pick(46..70), none)
       [] kind = "plain16" -> b(16000, Pick(46..60), none)
       [] kind = "plain11" -> b(11025, Pick(46..60), none)
       [] kind = "plain48" -> b(48000, Pick(45..48), none)
       [] kind = "long8"   -> b(8000, Pick(90..150), none)
       [] kind = "mixed"   -> b(8000, 50, [srdeg |-> 16000])
       [] kind = "noref"   -> [sr |-> OneOf(<<8000, 16000>>), ref |-> Sig("noise", Pick(100..4000)), deg |-> <<>>]
       [] kind = "nodeg"   -> [sr |-> OneOf(<<8000, 16000>>), ref |-> Sig("noise", 16000), deg |-> <<[op |-> "len", n |-> Pick(1..600)]>>]
       [] kind = "missing" -> b(8000, 46, [break |-> "missing"])
       [] kind = "garbage" -> b(8000, 46, [break |-> "garbage"])
       [] kind = "silent"  -> [sr |-> 8000, ref |-> Sig("speech", N(8000, 60, 0)), deg |-> <<[op |-> "zero"]>>]
       [] kind = "loud8"   -> [sr |-> 8000, ref |-> Sig("loud", N(8000, 60, 0)), deg |-> <<[op |-> "clip", amp |-> 9000]>>]
       [] kind = "empty"   -> [sr |-> 8000, ref |-> Sig("noise", 12000), deg |-> <<[op |-> "len", n |-> 0]>>]
       [] kind = "copy8"   -> [sr |-> 8000, ref |-> Sig("speech", N(8000, 60, 0)), deg |-> <<>>]
       [] kind = "late8"   -> [sr |-> 8000, ref |-> Sig("noise", N(8000, 60, 0)), deg |-> <<[op |-> "delay", n |-> Pick(1..6000)]>>]
       [] kind = "sib1" -> Siblings(s)[1] @@ none
       [] kind = "sib2" -> Siblings(s)[2] @@ none
       [] kind = "sib3" -> Siblings(s)[3] @@ none
       [] kind = "sib4" -> Siblings(s)[4] @@ none
Setups == {[modes |-> <<a, b>>, radii |-> <<Pick(0..3), Pick(1..60)>>, kinds |-> ks, steps |-> n, threads |-> t] :
             a \in {"speech", "audio", "unscaled"}, b \in {"speech", "audio"},
             ks \in {[i \in 1..4 |-> OneOf(KindsOf)] : j \in 1..12} \cup {<<"plain8", "plain16", "nodeg", "plain8">>, <<"plain16", "plain8", "noref", "mixed">>, <<"sib1", "sib2", "sib3", "sib4">>, <<"sib1", "sib2", "missing", "sib3">>,
                   <<"sib4", "sib2", "long8", "sib1">>}, n \in {5, 8, 15}, t \in {1, 3}}
          \cup {[modes |-> <<a, b>>, radii |-> <<Pick(0..1), Pick(1..2)>>, kinds |-> ks, steps |-> n, threads |-> 1] :     \* long histories
             a \in {"speech", "audio"}, b \in {"speech", "audio"}, ks \in {<<"plain8", "copy8", "noref", "late8">>, <<"plain8", "plain11", "nodeg", "sib1">>, <<"sib1", "sib2", "sib3", "late8">>}, n \in {40, 70, 75, 80}}

Init == hist = <<>> /\ setup \in Setups
Call(m, p, how) ==
  /\ Len(hist) < setup.steps
  /\ hist' = Append(hist, <<m, p, how>>)
  /\ UNCHANGED setup
Case == LET s == Seed(0) IN [u |-> "session", fam |-> "session", pairs |-> [i \in 1..4 |-> PairOf(setup.kinds[i], s)], kinds |-> setup.kinds,
         managers |-> [m \in 1..2 |-> [mode |-> setup.modes[m], radius |-> setup.radii[m]]], steps |-> hist, threads |-> setup.threads]
Emit ==
  /\ Len(hist) = setup.steps
  /\ Serialize(ToJson(Case) \o "\n", IOEnv.GEN_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
  /\ hist' = Append(hist, <<0, 0, "end">>) /\ UNCHANGED setup
Next == (\E m \in 1..2, p \in 1..4, how \in {"run", "compute", "over"} : Call(m, p, how)) \/ Emit
Spec == Init /\ [][Next]_gvars
=============================================================================
