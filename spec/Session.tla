------------------------------ MODULE Session ------------------------------
(* Comparisons over managers that live longer than one comparison.           *)
(* A manager owns a filter bank with two kinds of mutable state: coefficients *)
(* (which depend on the sample rate) and conditions (what earlier samples     *)
(* left behind).  Every frame of both signals of a pair runs through it; a    *)
(* comparison may stop half way with an error.  Managers work concurrently,   *)
(* frame by frame.  What a comparison yields is the sequence of tokens its    *)
(* frames produced; the guarantee is that this never depends on history.      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Managers,        \* their names
          Pairs,           \* what can be compared: [ra, rd, na, nd] rates and frame counts (0: too short)
          MaxCalls,        \* comparisons per behaviour
          Reset,           \* "frame", "signal" or "never": when conditions are cleared
          Coefficients,    \* "signal" or "once": when coefficients are computed
          Shared           \* TRUE: one filter bank for all managers

VARIABLES bank,            \* filter banks: [coef, cond]
          job,             \* per manager: idle, or the comparison under way
          calls            \* finished comparisons [m, p, out]
svars == <<bank, job, calls>>

NoJob == [on |-> FALSE]
Own(m) == IF Shared THEN CHOOSE x \in Managers : TRUE ELSE m
NewBank == [coef |-> 0, cond |-> "zero"]

Token(sig, f, r, b) == [sig |-> sig, frame |-> f, coef |-> r, before |-> b]
Stop(why) == Token(why, 0, 0, "zero")

SInit ==
  /\ bank = [m \in Managers |-> NewBank]
  /\ job = [m \in Managers |-> NoJob]
  /\ calls = <<>>

Running == Cardinality({m \in Managers : job[m].on})

Start(m, p) ==
  /\ ~job[m].on /\ Len(calls) + Running < MaxCalls
  /\ job' = [job EXCEPT ![m] = [on |-> TRUE, p |-> p, sig |-> "check", frame |-> 1, out |-> <<>>]]
  /\ UNCHANGED <<bank, calls>>

Finish(m, out) ==
  /\ calls' = Append(calls, [m |-> m, p |-> job[m].p, out |-> out])
  /\ job' = [job EXCEPT ![m] = NoJob]

\* rates are compared before anything else
CheckRates(m) ==
  /\ job[m].on /\ job[m].sig = "check"
  /\ IF job[m].p.ra # job[m].p.rd
     THEN Finish(m, <<Stop("rates")>>) /\ UNCHANGED bank
     ELSE job' = [job EXCEPT ![m].sig = "ref0"] /\ UNCHANGED <<bank, calls>>

Rate(j) == IF j.sig \in {"ref0", "ref"} THEN j.p.ra ELSE j.p.rd
Frames(j) == IF j.sig \in {"ref0", "ref"} THEN j.p.na ELSE j.p.nd

\* before the frames of a signal
Prepare(m) ==
  LET j == job[m] b == bank[Own(m)] IN
  /\ j.on /\ j.sig \in {"ref0", "deg0"}
  /\ IF Frames(j) = 0
     THEN Finish(m, Append(j.out, Stop("short"))) /\ UNCHANGED bank
     ELSE /\ bank' = [bank EXCEPT ![Own(m)] = [coef |-> IF Coefficients = "signal" \/ b.coef = 0 THEN Rate(j) ELSE b.coef,
                                               cond |-> IF Reset = "never" THEN b.cond ELSE "zero"]]
          /\ job' = [job EXCEPT ![m].sig = IF j.sig = "ref0" THEN "ref" ELSE "deg", ![m].frame = 1]
          /\ UNCHANGED calls

\* one frame: its token shows everything its value depends on
Frame(m) ==
  LET j == job[m]
      b == bank[Own(m)]
      before == IF Reset = "frame" THEN "zero" ELSE b.cond
      token == [sig |-> j.sig, frame |-> j.frame, coef |-> b.coef, before |-> before]
      last == j.frame = Frames(j)
  IN
  /\ j.on /\ j.sig \in {"ref", "deg"}
  /\ bank' = [bank EXCEPT ![Own(m)].cond = "used"]
  /\ IF last /\ j.sig = "deg" THEN Finish(m, Append(j.out, token))
     ELSE /\ job' = [job EXCEPT ![m].out = Append(j.out, token), ![m].frame = IF last THEN 1 ELSE j.frame + 1,
                                ![m].sig = IF last THEN "deg0" ELSE j.sig]
          /\ UNCHANGED calls

SNext == \E m \in Managers : (\E p \in Pairs : Start(m, p)) \/ CheckRates(m) \/ Prepare(m) \/ Frame(m)
SSpec == SInit /\ [][SNext]_svars

\* ------------------------------------------------------------ guarantees ----
\* what a fresh manager gives
FreshTokens(p) ==
  LET of(sig, n, r) == [f \in 1..n |-> Token(sig, f, r, IF Reset = "frame" \/ f = 1 THEN "zero" ELSE "used")]
  IN IF p.ra # p.rd THEN <<Stop("rates")>>
     ELSE IF p.na = 0 THEN <<Stop("short")>>
     ELSE IF p.nd = 0 THEN of("ref", p.na, p.ra) \o <<Stop("short")>>
     ELSE of("ref", p.na, p.ra) \o of("deg", p.nd, p.rd)

\* C03: history does not matter
HistoryFree == \A i \in 1..Len(calls) : calls[i].out = FreshTokens(calls[i].p)
\* C10: a frame depends on its own samples and the rate alone
FramesLocal == \A i \in 1..Len(calls) : \A k \in 1..Len(calls[i].out) :
                 LET t == calls[i].out[k] IN t.frame = 0 \/ (t.before = "zero" /\ t.coef = calls[i].p.ra)
=============================================================================
