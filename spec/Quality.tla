------------------------------ MODULE Quality ------------------------------
(* From band similarities (units of 1e-7) to the quality score (1e-6).       *)
EXTENDS Integers, Sequences, BigInt, Observe, SequencesExt, IOUtils, Json

K == 4                                  \* fraction limbs: 16 decimals
Fix(x, unitLimbs4, unitRest) == Div(Shl(Mul(B(x), B(unitRest)), K), Shl(B(1), unitLimbs4))
Sim(x) == Div(Shl(B(x), K), B(One))     \* a similarity as a fixed-point number
ToMicro(x) == ToInt(Div(Add(Mul(x, B(1000000)), Div(Shl(B(1), K), B(2))), Shl(B(1), K)))
OneF == Shl(B(1), K)
FiveF == Shl(B(5), K)
ClampF(x) == IF Lt(x, OneF) THEN OneF ELSE IF Lt(FiveF, x) THEN FiveF ELSE x

\* ---- wideband: exponential fit of the mean similarity ----
FitA == Lit(1, <<1559, 4550, 0, 0>>)          \* 1.1559455
FitB == Lit(4, <<6851, 1530, 0, 0>>)          \* 4.6851153
FitX == Lit(0, <<7655, 2320, 0, 0>>)          \* 0.7655232
FitS == Lit(1, <<2031, 4090, 0, 0>>)          \* 1.2031409
FitOf(s) == Add(FitA, Exp(Shr(Mul(FitB, Sub(s, FitX)), K), K))
\* score in 1e-6 for mean similarity m (1e-7)
SpeechScore(m, scaled) ==
  LET f == FitOf(Sim(m)) IN ToMicro(ClampF(IF scaled THEN Shr(Mul(f, FitS), K) ELSE f))

\* ---- fullband: nu-SVR with a Gaussian kernel ----
\* the model file, converted to integers: gamma, rho, coefs in 1e-8 and features in 1e-6
SvmFile == IF "SVM_FILE" \in DOMAIN IOEnv THEN IOEnv.SVM_FILE ELSE ""
Svm == ndJsonDeserialize(SvmFile)       \* record 1: [gamma, rho]; then [c, x]
\* native arithmetic is exact enough here: numbers of at most 1 in 1e-8
Mul8(x, y) == (x \div 10000) * (y \div 10000) + ((x \div 10000) * (y % 10000) + (x % 10000) * (y \div 10000)) \div 10000
RECURSIVE Series(_, _, _, _)
Series(z, n, term, sum) == IF term = 0 \/ n > 12 THEN sum ELSE LET t == -(Mul8(Clip(term), z) \div n) IN Series(z, n + 1, IF term < 0 THEN -t ELSE t, sum + (IF term < 0 THEN -t ELSE t))
ExpNeg(z) == LET q == Series(z \div 4, 1, 100000000, 100000000) IN Mul8(Mul8(q, q), Mul8(q, q))     \* e^-z, 0 <= z <= 4
\* squared distance (1e-6) of two vectors in 1e-6
Distance2(x, y) ==
  FoldLeft(LAMBDA a, i : LET u == Clip(x[i] - y[i]) q == u \div 100 r == u % 100
                         IN a + (q * q + (2 * q * r) \div 100 + 50) \div 100, 0, [i \in 1..Len(x) |-> i])
\* the default model and variants of it (tools/check.py writes them): another kernel width, another offset
ModelOf(name) == CASE name = "narrow" -> [gamma |-> Svm[1].gamma \div 2, rho |-> Svm[1].rho]
                   [] name = "wide"   -> [gamma |-> 2 * Svm[1].gamma, rho |-> Svm[1].rho]
                   [] name = "moved"  -> [gamma |-> Svm[1].gamma, rho |-> Svm[1].rho + 120000000]
                   [] name = "lifted" -> [gamma |-> Svm[1].gamma, rho |-> Svm[1].rho - 150000000]
                   [] OTHER           -> [gamma |-> Svm[1].gamma, rho |-> Svm[1].rho]
SvrScoreOf(name, v) ==         \* v in 1e-7
  LET x == TLCEval([i \in 1..Len(v) |-> RoundDiv(v[i], 10)])
      model == ModelOf(name)
      g == model.gamma                               \* 1e-8
      \* distance (1e-6) times gamma (1e-8), in 1e-8
      z(s) == LET q == Distance2(x, s.x) IN (q \div 10000) * (g \div 100) + ((q % 10000) * (g \div 100)) \div 10000
      term(s) == LET k == Mul8(ExpNeg(z(s)), Clip(s.c)) IN IF s.c < 0 THEN -k ELSE k
      \* in 1e-6, two sums so that neither overflows
      total == FoldLeft(LAMBDA a, i : LET t == term(Svm[i]) IN [u |-> a.u + (t \div 100), r |-> a.r + (t % 100)],
                        [u |-> 0, r |-> 0], [i \in 1..(Len(Svm) - 1) |-> i + 1])
      y == total.u + (total.r \div 100) - (model.rho \div 100)
  IN IF y < 1000000 THEN 1000000 ELSE IF y > 5000000 THEN 5000000 ELSE y
SvrScore(v) == SvrScoreOf("default", v)

Cutoff == 1500000                        \* similarity 0.15
=============================================================================
