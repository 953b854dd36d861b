------------------------------ MODULE NoiseModel ------------------------------
(* Error channels, sampled errors, soft information and the statistics of   *)
(* the analog simulations. A case is a sequence of recorded calls on one    *)
(* subject; the machine goes through them and judges every result, numbers  *)
(* being given in ten thousandths or millionths. Sampled errors are added   *)
(* up and compared with their chances at the end.                           *)
EXTENDS Gf2, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, i, seen, bad
vars == <<c, i, seen, bad>>
C == Cases[c]
Calls == C.calls
Abs(a) == IF a < 0 THEN -a ELSE a
Close(a, b, tol) == Abs(a - b) <= tol

\* ------------------------------------------------------------ channels
\* rate in ten thousandths, bias as small integers or with one infinite entry (-1); results in millionths
Share(e, k) == IF -1 \in Range(e.bias) THEN (IF e.bias[k] = -1 /\ \A j \in 1..(k - 1) : e.bias[j] # -1 THEN e.rate * 100 ELSE 0)
               ELSE (e.rate * 100 * e.bias[k]) \div (e.bias[1] + e.bias[2] + e.bias[3])
ChannelWrong(e) ==
  IF Len(e.x) # e.n \/ Len(e.y) # e.n \/ Len(e.z) # e.n THEN "ChannelForEveryQubit"
  ELSE IF \E q \in 1..e.n : ~Close(e.x[q], Share(e, 1), 2) \/ ~Close(e.y[q], Share(e, 2), 2) \/ ~Close(e.z[q], Share(e, 3), 2) THEN "RateSharedByBias"
  ELSE ""
\* ------------------------------------------------------------ sampling: e.x, e.z new errors, e.rx, e.rz residual ones
\* what has happened to every qubit: counts of nothing, x, z, both
Kind(e, q) == LET x == Bit(e.x ^^ e.rx, q)  z == Bit(e.z ^^ e.rz, q) IN IF x = 1 THEN (IF z = 1 THEN 4 ELSE 2) ELSE (IF z = 1 THEN 3 ELSE 1)
Sampled(s, e) == [q \in 1..C.n |-> [s[q] EXCEPT ![Kind(e, q - 1)] = @ + e.times]]
NearRate(count, total, p) == LET d == Abs(count * 100 - (total * p) \div 100)
                             IN d <= 100 \/ (d < 40000 /\ ((d - 100) * (d - 100)) \div 49 <= (total * ((p * (10000 - p)) \div 10000)) + 1)
Chances(q) == <<10000 - C.px[q] - C.py[q] - C.pz[q], C.px[q], C.pz[q], C.py[q]>>
SamplesWrong == IF \E q \in 1..C.n, k \in 1..4 : (Chances(q)[k] = 0 /\ seen[q][k] > 0) \/ (Chances(q)[k] = 10000 /\ seen[q][k] # C.total) THEN "OnlyPossibleErrors"
                ELSE IF \E q \in 1..C.n, k \in 1..4 : ~NearRate(seen[q][k], C.total, Chances(q)[k]) THEN "ErrorsWithTheirChances" ELSE ""
\* ------------------------------------------------------------ soft information
Soft(e) ==
  CASE e.f = "threshold" -> IF e.out # [k \in 1..Len(e.in) |-> IF e.in[k] > 0 THEN 0 ELSE 1] THEN "ThresholdAtZero" ELSE ""
    [] e.f = "signed" -> IF e.out # [k \in 1..Len(e.in) |-> IF e.in[k] = 0 THEN 1 ELSE -1] THEN "SignOfTheSyndrome" ELSE ""
    [] e.f = "noiseless" -> IF e.out # [k \in 1..Len(e.in) |-> IF e.in[k] = 0 THEN 10000 ELSE -10000] THEN "NoNoiseNoChange" ELSE ""
    [] e.f = "llr" -> \* 2y / sigma^2, y and sigma in hundredths, result in hundredths
         IF e.sigma <= 0 THEN (IF \E k \in 1..Len(e.out) : e.out[k] # 0 THEN "LlrOfTheValue" ELSE "")
         ELSE IF \E k \in 1..Len(e.in) : ~Close(e.out[k] * e.sigma * e.sigma, 2 * e.in[k] * 10000, e.sigma * e.sigma + 10) THEN "LlrOfTheValue" ELSE ""
    [] e.f = "sigma" -> \* the rate of the sigma of a rate is the rate, in millionths
         IF ~Close(e.back, e.rate, 1) THEN "SigmaAndRateAreInverse" ELSE ""
    [] e.f = "monotone" -> \* a larger rate has a larger sigma
         IF \E k \in 1..(Len(e.out) - 1) : e.out[k] >= e.out[k + 1] THEN "SigmaAndRateAreInverse" ELSE ""
    [] e.f = "flips" -> IF ~NearRate(e.count, e.total, e.rate) THEN "SigmaGivesTheRate" ELSE ""
    [] e.f = "virtual" -> \* chance that the sign is wrong: between 0 and 1/2, smaller for larger values, independent of the sign
         IF \E k \in 1..Len(e.out) : e.out[k] < 0 \/ e.out[k] > 500000 THEN "ChanceOfAWrongSign"
         ELSE IF e.sigma <= 0 /\ \E k \in 1..Len(e.out) : e.out[k] # 0 THEN "ChanceOfAWrongSign"
         ELSE IF \E k, l \in 1..Len(e.out) : (Abs(e.in[k]) < Abs(e.in[l]) /\ e.out[k] < e.out[l]) \/ (Abs(e.in[k]) = Abs(e.in[l]) /\ e.out[k] # e.out[l]) THEN "ChanceOfAWrongSign" ELSE ""
    [] e.f = "calibrated" -> \* wrong signs seen and the sum of the chances given for them, in ten thousandths
         LET d == Abs(e.count * 10000 - e.sum) \div 100 IN IF d > 100 /\ (d >= 40000 \/ (d - 100) * (d - 100) > 49 * (e.var + 1)) THEN "ChanceOfAWrongSign" ELSE ""
\* ------------------------------------------------------------ logical errors and matrices
Matrix(e) ==
  CASE e.f = "logical" -> IF e.out # (\E k \in 1..Len(e.l) : Par(e.l[k] & e.v) = 1) THEN "LogicalIfAnticommuting" ELSE ""
    [] e.f = "residual" -> IF e.out # (Rank(Append(e.h, e.v ^^ e.w)) # Rank(e.h)) THEN "LogicalIfNoProductOfChecks" ELSE ""
    [] e.f = "analog" -> IF e.out # [r \in 1..Len(e.h) |-> e.h[r] + Pow2[e.n] * Pow2[r - 1]] THEN "AnalogMatrix" ELSE ""
    [] e.f = "single" -> IF e.out # [r \in 1..Len(e.h) |-> e.h[r] + Pow2[e.n] * Pow2[r - 1]] \o [r \in 1..Len(e.m) |-> e.m[r] * Pow2[e.n]] THEN "SingleStageMatrix" ELSE ""
    [] e.f = "move" -> IF e.out # [r \in 1..Len(e.in) |-> [k \in 1..Len(e.in[r]) |-> IF k <= Len(e.in[r]) \div 2 THEN e.in[r][k + Len(e.in[r]) \div 2] ELSE 0]] THEN "SecondHalfMovesUp" ELSE ""
\* ------------------------------------------------------------ rates and convergence
\* x^k in ten thousandths
RECURSIVE PowT(_, _)
PowT(x, k) == IF k = 0 THEN 10000 ELSE (x * PowT(x, k - 1) + 5000) \div 10000
\* with one logical qubit the relative error bar is below the precision p (ten thousandths) when s < p^2 f r, s successes, f failures
RateWrong(e) ==
  LET f == e.runs - e.won IN
  IF ~Close(e.ler, (f * 10000) \div e.runs, 1) THEN "RateOfFailures"
  ELSE IF ~Close(e.eb * e.eb, (((f * 10000) \div e.runs) * ((e.won * 10000) \div e.runs)) \div e.runs, 2 * e.eb + 20 + 20000 \div e.runs) THEN "ErrorBarOfTheRate"
  ELSE IF ~Close(PowT(10000 - e.wer, e.k), 10000 - e.ler, 3 * e.k) THEN "RatePerLogicalQubit"
  ELSE ""
\* sqrt(s / (f r)) against p: s * 10^8 against p^2 f r
Clearly(s, r, p) == LET f == r - s IN IF s = 0 \/ f = 0 THEN "no" ELSE IF s * 10000 < ((p * p) \div 10000) * f * r THEN "yes" ELSE IF s * 10000 > ((p * p) \div 10000 + 1) * f * r THEN "no" ELSE "?"
ConvergedWrong(e) ==
  LET x == Clearly(e.x, e.runs, e.p)  z == Clearly(e.z, e.runs, e.p) IN
  IF (x = "yes" /\ z = "yes" /\ ~e.out) \/ ((x = "no" \/ z = "no") /\ e.out) THEN "ConvergedWhenBothSidesAre" ELSE ""

Judge(e) == CASE C.kind = "channel" -> ChannelWrong(e) [] C.kind = "soft" -> Soft(e) [] C.kind = "matrix" -> Matrix(e)
              [] C.kind = "rates" -> RateWrong(e) [] C.kind = "converged" -> ConvergedWrong(e) [] OTHER -> ""

Init == c \in 1..Len(Cases) /\ i = 1 /\ seen = [q \in 1..Cases[c].n |-> <<0, 0, 0, 0>>] /\ bad = IF Cases[c].status = "ok" THEN "" ELSE "NoException"
Step == bad = "" /\ i <= Len(Calls) /\ i' = i + 1 /\ bad' = Judge(Calls[i]) /\ seen' = (IF C.kind = "sample" THEN Sampled(seen, Calls[i]) ELSE seen) /\ UNCHANGED c
Last == bad = "" /\ i = Len(Calls) + 1 /\ i' = i + 1 /\ bad' = (IF C.kind = "sample" THEN SamplesWrong ELSE "") /\ UNCHANGED <<c, seen>>
Finished == (bad # "" \/ i = Len(Calls) + 2) /\ UNCHANGED vars
Next == Step \/ Last \/ Finished

NoException == bad # "NoException"
ChannelForEveryQubit == bad # "ChannelForEveryQubit"
RateSharedByBias == bad # "RateSharedByBias"
OnlyPossibleErrors == bad # "OnlyPossibleErrors"
ErrorsWithTheirChances == bad # "ErrorsWithTheirChances"
ThresholdAtZero == bad # "ThresholdAtZero"
SignOfTheSyndrome == bad # "SignOfTheSyndrome"
NoNoiseNoChange == bad # "NoNoiseNoChange"
LlrOfTheValue == bad # "LlrOfTheValue"
SigmaAndRateAreInverse == bad # "SigmaAndRateAreInverse"
SigmaGivesTheRate == bad # "SigmaGivesTheRate"
ChanceOfAWrongSign == bad # "ChanceOfAWrongSign"
LogicalIfAnticommuting == bad # "LogicalIfAnticommuting"
LogicalIfNoProductOfChecks == bad # "LogicalIfNoProductOfChecks"
AnalogMatrix == bad # "AnalogMatrix"
SingleStageMatrix == bad # "SingleStageMatrix"
SecondHalfMovesUp == bad # "SecondHalfMovesUp"
RateOfFailures == bad # "RateOfFailures"
ErrorBarOfTheRate == bad # "ErrorBarOfTheRate"
RatePerLogicalQubit == bad # "RatePerLogicalQubit"
ConvergedWhenBothSidesAre == bad # "ConvergedWhenBothSidesAre"
=============================================================================
