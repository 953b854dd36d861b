------------------------------ MODULE LightsOut ------------------------------
(* The lights-out problem behind the colour code decoder. One instance is   *)
(* used for many patterns; its abstract state is the problem only. The set  *)
(* of patterns that w switches can produce is built layer by layer, and     *)
(* every answer of the history has to be a lightest solution. Also: the     *)
(* error rates a simulation reports.                                        *)
EXTENDS Gf2, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, phase, dist, w, k, bad
vars == <<c, phase, dist, w, k, bad>>
C == Cases[c]
N == Len(C.cols)      \* C.cols[q]: the lights of switch q-1, as a mask
E == C.trace[k]

\* dist: pattern -> least number of switches, for patterns that at most C.depth switches produce
Combine(s) == LET RECURSIVE F(_, _)
                  F(i, acc) == IF i > Len(s) THEN acc ELSE F(i + 1, IF s[i] = 1 THEN acc ^^ C.cols[i] ELSE acc)
              IN F(1, 0)
Weight(s) == Cardinality({i \in 1..Len(s) : s[i] = 1})
Known == UNION {dist[i] : i \in 1..Len(dist)}

Init == c \in 1..Len(Cases) /\ phase = "layers" /\ dist = <<{0}>> /\ w = 0 /\ k = 1 /\ bad = ""
Layer ==
  /\ bad = "" /\ phase = "layers"
  /\ LET next == {p ^^ C.cols[q] : p \in dist[w + 1], q \in 1..N} \ Known IN
     IF next = {} \/ w = C.depth THEN phase' = (IF next = {} THEN "complete" ELSE "cut") /\ UNCHANGED <<dist, w>>
     ELSE dist' = Append(dist, next) /\ w' = w + 1 /\ UNCHANGED phase
  /\ UNCHANGED <<c, k, bad>>

SolveWrong ==
  LET solvable == InSpan(C.cols, E.lights) IN
  IF ~solvable THEN IF E.status = "ok" THEN "UnsolvableRefused" ELSE ""
  ELSE IF E.status # "ok" THEN "SolvableSolved"
  ELSE IF Len(E.switches) # N \/ \E i \in 1..Len(E.switches) : E.switches[i] \notin {0, 1} THEN "OneValuePerSwitch"
  ELSE IF Combine(E.switches) # E.lights THEN "AllLightsOff"
  ELSE LET D == {i \in 1..Len(dist) : E.lights \in dist[i]} IN
       IF D # {} THEN IF \E i \in D : Weight(E.switches) # i - 1 THEN "LightestSolution" ELSE ""
       \* not reached by that few switches, and not more than the error that was put in
       ELSE IF Weight(E.switches) <= w \/ Weight(E.switches) > E.most THEN "LightestSolution"
       ELSE ""
\* colour codes correct all errors of less than half the distance: estimate and error differ by a stabilizer
CorrectWrong == IF E.status = "ok" /\ E.correct # <<>> /\ Cardinality({i \in Range(E.correct) : E.switches[i + 1] = 1}) % 2 # E.parity
                THEN "SmallErrorsCorrected" ELSE ""
Solve ==
  /\ bad = "" /\ phase \in {"complete", "cut"} /\ C.kind = "solve" /\ k <= Len(C.trace)
  /\ bad' = (IF SolveWrong # "" THEN SolveWrong ELSE CorrectWrong)
  /\ k' = k + 1 /\ UNCHANGED <<c, phase, dist, w>>

\* ---- simulate_error_rate ----
\* patterns of errors by weight that a lightest-solution decoder certainly gets wrong / may get wrong. In a code where every
\* pattern has one lightest solution (perfect codes) both agree.
RECURSIVE Power(_, _)
Power(b, e) == IF e = 0 THEN 1 ELSE b * Power(b, e - 1)
Vec(v) == [i \in 1..N |-> Bit(v, i - 1)]
Sols(p, d) == {v \in 0..(Pow2[N] - 1) : Pop(v) = d /\ Combine(Vec(v)) = p}
MinW(p) == CHOOSE i \in 1..Len(dist) : p \in dist[i]
LMask == LET RECURSIVE F(_, _)
             F(i, acc) == IF i > Len(C.logical) THEN acc ELSE F(i + 1, acc + Pow2[C.logical[i]])
         IN F(1, 0)
\* C.q out of 4 is the error rate; count of failures among 4^N equally likely cases
Failing == {e \in 0..(Pow2[N] - 1) : LET p == Combine(Vec(e)) IN \E v \in Sols(p, MinW(p) - 1) : Par((e ^^ v) & LMask) = 1}
RECURSIVE SumWeights(_)
SumWeights(S) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN
                 Power(C.q, Pop(e)) * Power(4 - C.q, N - Pop(e)) + SumWeights(S \ {e})
RateWrong ==
  IF C.status # "ok" THEN "Simulates"
  ELSE IF C.echo # C.asked THEN "ResultNamesTheRun"
  ELSE IF C.failures < 0 \/ C.failures > C.sims THEN "RateIsAFractionOfTheRuns"
  ELSE IF ~C.eb_ok THEN "ErrorBarOfTheRate"
  \* a logical error has at least the weight of the distance; -1 when there was none
  ELSE IF (C.failures = 0) # (C.minwt = -1) \/ (C.minwt # -1 /\ (C.minwt < C.distance \/ C.minwt > N)) THEN "LeastWeightOfALogicalError"
  ELSE IF C.q = 0 /\ C.failures # 0 THEN "NoErrorsNoFailures"
  \* all qubits flipped: no syndrome, and a logical error of weight n
  ELSE IF C.q = 4 /\ (C.failures # C.sims \/ C.minwt # N) THEN "AllQubitsFlipped"
  ELSE ""
\* the errors and estimates of the runs, where they were seen: failures are counted, and the lightest is reported
Residual(x) == (Range(x[1]) \cup Range(x[2])) \ (Range(x[1]) \cap Range(x[2]))
Fails(x) == Cardinality(Residual(x) \cap Range(C.logical)) % 2 = 1
FailureWrong ==
  IF Len(C.pairs) # C.sims \/ C.sims = 0 THEN ""
  ELSE LET F == {i \in 1..C.sims : Fails(C.pairs[i])} IN
       IF Cardinality(F) # C.failures THEN "CountsItsFailures"
       ELSE IF C.minwt # (IF F = {} THEN -1 ELSE LET i == CHOOSE i \in F : \A j \in F : Cardinality(Residual(C.pairs[i])) <= Cardinality(Residual(C.pairs[j]))
                                                IN Cardinality(Residual(C.pairs[i]))) THEN "LeastWeightOfALogicalError"
       ELSE ""
\* distance of the observed number of failures to its expectation, in units of 1/4^N
Expected == SumWeights(Failing)
Total == Power(4, N)
Abs(x) == IF x < 0 THEN -x ELSE x
StatWrong ==
  IF C.exact /\ C.q \in 1..3
  THEN LET mean == (Expected * C.sims) \div Total       \* C.tol: seven standard deviations at most
       IN IF Abs(C.failures - mean) > C.tol THEN "RateOfALightestSolution" ELSE ""
  ELSE ""
Rate == /\ bad = "" /\ phase \in {"complete", "cut"} /\ C.kind = "rate" /\ k = 1
        /\ bad' = (IF RateWrong # "" THEN RateWrong ELSE IF FailureWrong # "" THEN FailureWrong ELSE StatWrong)
        /\ k' = 2 /\ UNCHANGED <<c, phase, dist, w>>
\* the results of many runs in one directory: one file per run, none of another run overwritten, named like its content
Files == /\ bad = "" /\ phase \in {"complete", "cut"} /\ C.kind = "files" /\ k = 1
         /\ bad' = (IF C.status # "ok" THEN "Simulates"
                    ELSE IF Len(C.found) # Len(C.runs) \/ Range(C.found) # Range(C.runs) THEN "EveryRunHasItsFile"
                    ELSE IF C.names # C.found THEN "FilesNamedLikeTheirRun" ELSE "")
         /\ k' = 2 /\ UNCHANGED <<c, phase, dist, w>>
Refused == /\ bad = "" /\ phase \in {"complete", "cut"} /\ C.kind = "refused" /\ k = 1
           /\ bad' = (IF C.status = "ok" THEN "UnknownDecoderRefused" ELSE "")
           /\ k' = 2 /\ UNCHANGED <<c, phase, dist, w>>
Finished == bad = "" /\ phase # "layers" /\ (IF C.kind = "solve" THEN k > Len(C.trace) ELSE k = 2) /\ UNCHANGED vars
Next == Layer \/ Solve \/ Rate \/ Files \/ Refused \/ Finished

UnsolvableRefused == bad # "UnsolvableRefused"
SolvableSolved == bad # "SolvableSolved"
OneValuePerSwitch == bad # "OneValuePerSwitch"
AllLightsOff == bad # "AllLightsOff"
LightestSolution == bad # "LightestSolution"
SmallErrorsCorrected == bad # "SmallErrorsCorrected"
UnknownDecoderRefused == bad # "UnknownDecoderRefused"
Simulates == bad # "Simulates"
ResultNamesTheRun == bad # "ResultNamesTheRun"
RateIsAFractionOfTheRuns == bad # "RateIsAFractionOfTheRuns"
ErrorBarOfTheRate == bad # "ErrorBarOfTheRate"
LeastWeightOfALogicalError == bad # "LeastWeightOfALogicalError"
CountsItsFailures == bad # "CountsItsFailures"
NoErrorsNoFailures == bad # "NoErrorsNoFailures"
AllQubitsFlipped == bad # "AllQubitsFlipped"
RateOfALightestSolution == bad # "RateOfALightestSolution"
EveryRunHasItsFile == bad # "EveryRunHasItsFile"
FilesNamedLikeTheirRun == bad # "FilesNamedLikeTheirRun"
=============================================================================
