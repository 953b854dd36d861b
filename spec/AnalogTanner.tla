----------------------------- MODULE AnalogTanner -----------------------------
(* A decoder of the analog Tanner graph (H | I): every analog syndrome of a *)
(* history is decoded from its signs, with the given channel on the data    *)
(* and the soft values of this syndrome, and of no earlier one, on the      *)
(* virtual nodes. Exactly one description of the noise has to be given.     *)
EXTENDS Gf2, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, i, bad
vars == <<c, i, bad>>
C == Cases[c]
N == C.n
M == Len(C.h)
Near(a, b) == LET d == a - b IN d <= 2 /\ d >= -2
\* the sign 1 stands for a violated check, 0 for a value of 0, which counts as violated
Wrong(e) ==
  IF e.pcm # [r \in 1..M |-> C.h[r] + Pow2[N] * Pow2[r - 1]] THEN "DecoderHasItsMatrix"
  ELSE IF ~e.bin \/ \E r \in 1..M : Bit(e.inp, r - 1) # (IF e.sign[r] >= 0 THEN 1 ELSE 0) THEN "ThresholdedSyndrome"
  ELSE IF Len(e.ch) # N + M \/ \E q \in 1..N : ~Near(e.ch[q], C.rate) THEN "DataChannelKept"
  ELSE IF \E r \in 1..M : ~Near(e.ch[N + r], e.soft[r]) THEN "SoftValuesOfThisSyndrome"
  ELSE IF e.res # e.out THEN "AnswerOfTheDecoder"
  ELSE IF ~e.same THEN "SyndromeNotChanged"
  ELSE ""
Init == c \in 1..Len(Cases) /\ i = 1
        /\ bad = IF Cases[c].refuse THEN (IF Cases[c].status = "ok" THEN "OneDescriptionOfTheNoise" ELSE "")
                 ELSE IF Cases[c].status # "ok" THEN "NoException" ELSE ""
Judge == bad = "" /\ i <= Len(C.events) /\ bad' = Wrong(C.events[i]) /\ i' = i + 1 /\ UNCHANGED c
Finished == (bad # "" \/ i > Len(C.events)) /\ UNCHANGED vars
Next == Judge \/ Finished

NoException == bad # "NoException"
OneDescriptionOfTheNoise == bad # "OneDescriptionOfTheNoise"
DecoderHasItsMatrix == bad # "DecoderHasItsMatrix"
ThresholdedSyndrome == bad # "ThresholdedSyndrome"
DataChannelKept == bad # "DataChannelKept"
SoftValuesOfThisSyndrome == bad # "SoftValuesOfThisSyndrome"
AnswerOfTheDecoder == bad # "AnswerOfTheDecoder"
SyndromeNotChanged == bad # "SyndromeNotChanged"
=============================================================================
