------------------------------- MODULE CssCode -------------------------------
(* CSS codes of any length: validity of the check matrices, logical         *)
(* operators, syndromes, stabilizer membership and cosets, and the distance *)
(* of the codes of the library. Once the logical operators are known to     *)
(* complete the X stabilizers to the kernel of the Z checks, the X logical  *)
(* operators are what the span gains over the stabilizers while it grows    *)
(* generator by generator; for long codes all patterns of a few errors are  *)
(* visited layer by layer instead.                                          *)
EXTENDS Gf2Wide, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, phase, tab, k, span, low, bad
vars == <<c, phase, tab, k, span, low, bad>>
C == Cases[c]
N == C.n
Pack_(s) == WOf(N, s)
Packs(m) == [i \in 1..Len(m) |-> WOf(N, m[i])]
InRange(m) == \A i \in 1..Len(m) : \A q \in Range(m[i]) : q >= 0 /\ q < N

\* nx, nz: columns of the matrices handed over, 0 where none was
Valid == /\ C.nx > 0 \/ C.nz > 0
         /\ (C.nx > 0 /\ C.nz > 0) => C.nx = C.nz /\ \A i \in 1..Len(C.hx) : WCommute(Packs(C.hz), Pack_(C.hx[i]))
         /\ C.distance > 0 /\ C.dx >= C.distance /\ C.dz >= C.distance

Letter(p, s, i) == IF i \in Range(s) THEN p ELSE "I"
Strings(p, m) == [j \in 1..Len(m) |-> [i \in 1..N |-> Letter(p, m[j], i - 1)]]

SpaceWrong ==
  LET K == N - Len(tab.bx) - Len(tab.bz) IN
  IF C.n_ # N \/ C.k_ # K THEN "QubitsMinusRanks"
  ELSE IF C.distance_ # <<C.distance, C.dx, C.dz>> THEN "DistancesKept"
  ELSE IF ~InRange(C.hx_) \/ ~InRange(C.hz_) \/ tab.hx # Packs(C.hx_) \/ tab.hz # Packs(C.hz_) THEN "ChecksKept"
  ELSE IF Len(C.lx_) # K \/ Len(C.lz_) # K \/ ~InRange(C.lx_) \/ ~InRange(C.lz_) THEN "OneLogicalPairPerQubit"
  ELSE IF (\E i \in 1..K : ~WCommute(tab.hz, tab.lx[i]) \/ ~WCommute(tab.hx, tab.lz[i])) THEN "LogicalsCommuteWithTheChecks"
  ELSE IF Len(tab.fx) # Len(tab.bx) + K \/ Len(tab.fz) # Len(tab.bz) + K THEN "LogicalsIndependent"
  ELSE IF C.strings # <<Strings("X", C.hx), Strings("Z", C.hz), Strings("X", C.lx_), Strings("Z", C.lz_)>> THEN "StringsShowTheMatrices"
  ELSE IF C.selfdual # (Len(tab.bx) = Len(tab.bz) /\ \A i \in 1..Len(tab.hx) : WIn(tab.bz, tab.hx[i])) THEN "SelfDualIffSameSpaces"
  ELSE IF C.rows # 0 /\ ((\E h \in Range(tab.hx) \cup Range(tab.hz) : WPop(h) # C.rows)
                         \/ \E q \in 0..(N - 1) : Cardinality({i \in 1..Len(tab.hx) : WAt(tab.hx[i], q) = 1}) # C.rows \div 2
                                               \/ Cardinality({i \in 1..Len(tab.hz) : WAt(tab.hz[i], q) = 1}) # C.rows \div 2) THEN "WeightsOfTheFamily"
  ELSE IF C.stated # <<>> /\ <<C.n_, C.k_, C.distance_[1], C.distance_[2], C.distance_[3]>> # C.stated THEN "ParametersAsStated"
  ELSE LET Log(H, B, v) == WCommute(H, v) /\ ~WIn(B, v) IN
       IF C.witx # <<>> /\ Log(tab.hz, tab.bx, Pack_(C.witx)) /\ WPop(Pack_(C.witx)) < C.dx THEN "DistanceNotSmaller"
       ELSE IF C.witz # <<>> /\ Log(tab.hx, tab.bz, Pack_(C.witz)) /\ WPop(Pack_(C.witz)) < C.dz THEN "DistanceNotSmaller"
       ELSE IF C.tight /\ ~(C.witx # <<>> /\ C.witz # <<>> /\ Log(tab.hz, tab.bx, Pack_(C.witx)) /\ WPop(Pack_(C.witx)) = C.dx
                              /\ Log(tab.hx, tab.bz, Pack_(C.witz)) /\ WPop(Pack_(C.witz)) = C.dz) THEN "DistanceNotLarger"
       ELSE ""

Dots(H, v) == [i \in 1..Len(H) |-> WDot(H[i], v)]
QueryWrong(q) ==
  LET H == IF q.p = "X" THEN tab.hz ELSE tab.hx       \* checks that see errors of this kind
      B == IF q.p = "X" THEN tab.bx ELSE tab.bz
      a == Pack_(q.a)  b == Pack_(q.b) IN
  CASE q.f = "syndrome" -> IF q.val # Dots(H, a) THEN "SyndromeIsTheParityOfEveryCheck" ELSE ""
    [] q.f = "stabilizer" -> IF q.val # WIn(B, a) THEN "StabilizerIffInTheSpan" ELSE ""
    [] q.f = "equivalent" -> IF q.val # WIn(B, WXor(a, b)) THEN "CosetsOfTheStabilizers" ELSE ""
    \* for operators without a syndrome: logical or a stabilizer
    [] q.f = "logical" -> IF WCommute(H, a) /\ q.val # ~WIn(B, a) THEN "LogicalIffNoStabilizer" ELSE ""

Init == c \in 1..Len(Cases) /\ phase = "judge" /\ tab = <<>> /\ k = 1 /\ span = {} /\ low = {} /\ bad = ""
Judge == /\ bad = "" /\ phase = "judge" /\ UNCHANGED <<c, k, span, low>>
         /\ IF (C.status = "ok") # Valid THEN bad' = (IF Valid THEN "ValidCodeAccepted" ELSE "InvalidCodeRefused") /\ UNCHANGED <<phase, tab>>
            ELSE IF C.status # "ok" THEN bad' = "" /\ phase' = "done" /\ UNCHANGED tab
            ELSE /\ bad' = "" /\ phase' = "space"
                 /\ LET hx == Packs(C.hx)  hz == Packs(C.hz)
                        ok == InRange(C.lx_) /\ InRange(C.lz_)
                        lx == IF ok THEN Packs(C.lx_) ELSE <<>>
                        lz == IF ok THEN Packs(C.lz_) ELSE <<>> IN
                    tab' = [hx |-> hx, hz |-> hz, lx |-> lx, lz |-> lz, bx |-> WBasis(hx), bz |-> WBasis(hz),
                            fx |-> WBasis(hx \o lx), fz |-> WBasis(hz \o lz)]
Space == bad = "" /\ phase = "space" /\ phase' = "query" /\ bad' = SpaceWrong /\ UNCHANGED <<c, tab, k, span, low>>
Query == bad = "" /\ phase = "query" /\ k <= Len(C.queries) /\ k' = k + 1 /\ UNCHANGED <<c, tab, phase, span, low>>
         /\ bad' = QueryWrong(C.queries[k])
Queried == bad = "" /\ phase = "query" /\ k > Len(C.queries) /\ k' = (IF C.enumerate THEN 1 ELSE 0) /\ UNCHANGED <<c, tab, bad>>
           /\ phase' = (IF C.enumerate THEN "spanX" ELSE IF C.layers > 0 THEN "errorsX" ELSE "done")
           /\ span' = (IF C.enumerate THEN {WZero(N)} ELSE {<<-1, WZero(Len(tab.hz) + Len(tab.lz))>>}) /\ low' = {}

\* exact distance: the span of the stabilizers first, then what the logical operators add
IsX == phase \in {"spanX", "errorsX"}
Gens == IF phase = "spanX" THEN tab.fx ELSE tab.fz
NStab == IF phase = "spanX" THEN Len(tab.bx) ELSE Len(tab.bz)
RECURSIVE MinPop(_, _)
MinPop(S, w) == IF \E v \in S : WPop(v) = w THEN w ELSE MinPop(S, w + 1)
Grow == /\ bad = "" /\ phase \in {"spanX", "spanZ"} /\ k <= Len(Gens) /\ k' = k + 1 /\ UNCHANGED <<c, tab, phase, bad>>
        /\ LET new == {WXor(v, Gens[k][3]) : v \in span} IN
           span' = span \cup new /\ low' = IF k > NStab THEN low \cup new ELSE {}
Grown == /\ bad = "" /\ phase \in {"spanX", "spanZ"} /\ k > Len(Gens) /\ k' = 1 /\ span' = {WZero(N)} /\ low' = {} /\ UNCHANGED <<c, tab>>
         /\ phase' = (IF phase = "spanX" THEN "spanZ" ELSE "done")
         /\ bad' = IF low # {} /\ MinPop(low, 1) # (IF phase = "spanX" THEN C.dx ELSE C.dz) THEN "DistanceIsTheLeastLogicalWeight" ELSE ""

\* long codes: up to C.layers errors, as <<largest qubit, syndrome and logical parities>>
Checks == IF phase = "errorsX" THEN tab.hz \o tab.lz ELSE tab.hx \o tab.lx
RECURSIVE Column(_, _, _, _)
Column(H, q, i, acc) == IF i > Len(H) THEN acc
                        ELSE Column(H, q, i + 1, IF WAt(H[i], q) = 1 THEN [acc EXCEPT ![((i - 1) \div 24) + 1] = @ ^^ Pow2[(i - 1) % 24]] ELSE acc)
Keys(H) == [q \in 1..N |-> Column(H, q - 1, 1, WZero(Len(H)))]
NChecks == IF phase = "errorsX" THEN Len(tab.hz) + Len(tab.lz) ELSE Len(tab.hx) + Len(tab.lx)
NLog == Len(tab.lx)
SynOf(v) == LET m == NChecks - NLog IN
            [w \in 1..Len(v) |-> IF w * 24 <= m THEN v[w] ELSE IF (w - 1) * 24 >= m THEN 0 ELSE v[w] % Pow2[m - (w - 1) * 24]]
Layer == /\ bad = "" /\ phase \in {"errorsX", "errorsZ"} /\ k <= C.layers /\ k' = k + 1 /\ UNCHANGED <<c, phase>>
         /\ IF k = 0 THEN tab' = [tab EXCEPT !.fx = Keys(Checks)] /\ UNCHANGED <<span, low, bad>>
            ELSE /\ UNCHANGED tab
                 /\ LET next == UNION {{<<q, WXor(e[2], tab.fx[q + 1])>> : q \in (e[1] + 1)..(N - 1)} : e \in span}
                        old == low \cup {WZero(NChecks)}
                        all == old \cup {e[2] : e \in next}
                    IN /\ span' = next /\ low' = all
                       \* C.apart: two patterns of this many errors together are fewer than the distance
                       /\ bad' = IF 2 * k <= C.apart /\ Cardinality({SynOf(v) : v \in all}) # Cardinality(all) THEN "FewErrorsAreNoLogical"
                                 ELSE IF 2 * k > C.apart /\ {SynOf(v) : v \in {e[2] : e \in next} \ old} \cap {SynOf(w) : w \in old} # {} THEN "FewErrorsAreNoLogical"
                                 ELSE ""
Layered == /\ bad = "" /\ phase \in {"errorsX", "errorsZ"} /\ k > C.layers /\ k' = 0 /\ low' = {} /\ UNCHANGED <<c, tab, bad>>
           /\ span' = {<<-1, WZero(Len(tab.hx) + NLog)>>} /\ phase' = (IF phase = "errorsX" THEN "errorsZ" ELSE "done")
Finished == bad = "" /\ phase = "done" /\ UNCHANGED vars
Next == Judge \/ Space \/ Query \/ Queried \/ Grow \/ Grown \/ Layer \/ Layered \/ Finished

ValidCodeAccepted == bad # "ValidCodeAccepted"
InvalidCodeRefused == bad # "InvalidCodeRefused"
QubitsMinusRanks == bad # "QubitsMinusRanks"
DistancesKept == bad # "DistancesKept"
ChecksKept == bad # "ChecksKept"
OneLogicalPairPerQubit == bad # "OneLogicalPairPerQubit"
LogicalsCommuteWithTheChecks == bad # "LogicalsCommuteWithTheChecks"
LogicalsIndependent == bad # "LogicalsIndependent"
StringsShowTheMatrices == bad # "StringsShowTheMatrices"
SelfDualIffSameSpaces == bad # "SelfDualIffSameSpaces"
WeightsOfTheFamily == bad # "WeightsOfTheFamily"
ParametersAsStated == bad # "ParametersAsStated"
DistanceNotSmaller == bad # "DistanceNotSmaller"
DistanceNotLarger == bad # "DistanceNotLarger"
SyndromeIsTheParityOfEveryCheck == bad # "SyndromeIsTheParityOfEveryCheck"
StabilizerIffInTheSpan == bad # "StabilizerIffInTheSpan"
CosetsOfTheStabilizers == bad # "CosetsOfTheStabilizers"
LogicalIffNoStabilizer == bad # "LogicalIffNoStabilizer"
DistanceIsTheLeastLogicalWeight == bad # "DistanceIsTheLeastLogicalWeight"
FewErrorsAreNoLogical == bad # "FewErrorsAreNoLogical"
=============================================================================
