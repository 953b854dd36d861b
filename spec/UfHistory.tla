----------------------------- MODULE UfHistory -----------------------------
(* One decoder object over a history of calls: set_code, set_growth, decode *)
(* and reset in any order. Its abstract state is the code and the growth    *)
(* variant only: what a decode call answers is what a decoder that has just *)
(* been made for that code and that variant answers. A syndrome with two    *)
(* halves is answered half by half.                                         *)
EXTENDS Gf2, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, k, code, growth, bad
vars == <<c, k, code, growth, bad>>
C == Cases[c]
E == C.trace[k]

\* fresh answers of new decoders, recorded beside the history: [code, growth, half, syn, est]
Fresh(half, syn) == {f \in Range(C.fresh) : f.code = code /\ f.growth = growth /\ f.half = half /\ f.syn = syn}
N == C.sizes[code].n
MZ == C.sizes[code].mz
TwoSided == Len(E.syn) > MZ
\* the answers a decoder may give
Allowed(half, syn) == {f.est : f \in Fresh(half, syn)}
Low == SelectSeq(E.est, LAMBDA i : i < N)
High == SelectSeq(E.est, LAMBDA i : i >= N)
Zero(s) == \A i \in 1..Len(s) : s[i] = 0

DecodeWrong ==
  IF E.status # "ok" THEN "Decodes"
  ELSE IF Len(E.vec) # (IF TwoSided THEN 2 * N ELSE N) THEN "LengthOfTheEstimate"
  ELSE IF \E i \in 1..Len(E.vec) : (E.vec[i] = 1) # ((i - 1) \in Range(E.est)) THEN "VectorAndIndicesAgree"
  ELSE IF \E i \in 1..Len(E.est) : E.est[i] < 0 \/ E.est[i] >= Len(E.vec) THEN "LengthOfTheEstimate"
  ELSE IF Zero(E.syn) /\ E.est # <<>> THEN "NoSyndromeNoCorrection"
  ELSE IF TwoSided
    THEN LET x == SubSeq(E.syn, 1, MZ)
             z == SubSeq(E.syn, MZ + 1, Len(E.syn))
         IN IF Range(Low) \notin {Range(a) : a \in Allowed("x", x)} \/ {i - N : i \in Range(High)} \notin {Range(a) : a \in Allowed("z", z)}
              THEN "HalvesAreDecodedOnTheirOwn" ELSE ""
  ELSE IF Range(E.est) \notin {Range(a) : a \in Allowed("x", E.syn)} THEN "HistoryDoesNotMatter"
  ELSE ""

Init == c \in 1..Len(Cases) /\ k = 1 /\ code = 0 /\ growth = "ALL_COMPONENTS" /\ bad = ""
Go == bad = "" /\ k <= Len(C.trace)
SetCode == Go /\ E.op = "set_code" /\ code' = E.code /\ UNCHANGED <<growth, bad>>
SetGrowth == Go /\ E.op = "set_growth" /\ growth' = E.growth /\ UNCHANGED <<code, bad>>
\* reset drops results and goes back to the standard growth; the code stays
Reset == Go /\ E.op = "reset" /\ growth' = "ALL_COMPONENTS" /\ UNCHANGED code
         /\ bad' = IF E.est # <<>> \/ E.vec # <<>> \/ E.growth # "ALL_COMPONENTS" THEN "ResetForgets" ELSE ""
Decode == Go /\ E.op = "decode" /\ code > 0 /\ bad' = DecodeWrong /\ UNCHANGED <<code, growth>>
Next == \/ (SetCode \/ SetGrowth \/ Reset \/ Decode) /\ k' = k + 1 /\ UNCHANGED c
        \/ bad = "" /\ k > Len(C.trace) /\ UNCHANGED vars

Decodes == bad # "Decodes"
LengthOfTheEstimate == bad # "LengthOfTheEstimate"
VectorAndIndicesAgree == bad # "VectorAndIndicesAgree"
NoSyndromeNoCorrection == bad # "NoSyndromeNoCorrection"
HalvesAreDecodedOnTheirOwn == bad # "HalvesAreDecodedOnTheirOwn"
HistoryDoesNotMatter == bad # "HistoryDoesNotMatter"
ResetForgets == bad # "ResetForgets"
=============================================================================
