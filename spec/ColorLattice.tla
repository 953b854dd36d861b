---------------------------- MODULE ColorLattice ----------------------------
(* Triangular colour codes on the hexagonal (6.6.6) and the square-octagon  *)
(* (4.8.8) lattice: incidence of faces and qubits, colouring, logical       *)
(* operators and distance. The colouring is found by a search that visits   *)
(* one face after another; the distance by visiting all error patterns of   *)
(* up to t qubits in order of their weight.                                 *)
EXTENDS Gf2Wide, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, phase, tab, colour, layer, seen, bad
vars == <<c, phase, tab, colour, layer, seen, bad>>
C == Cases[c]
N == C.n
D == C.distance
F == Len(C.faces)
\* packed vectors are computed once and kept in tab
Face == tab.face
HRow == tab.h
T == (D - 1) \div 2
\* [[n, 1, d]]
Size == IF C.lattice = "hexagon" THEN (3 * D * D + 1) \div 4 ELSE (D * D - 1) \div 2 + D
Weights == IF C.lattice = "hexagon" THEN {4, 6} ELSE {4, 8}

\* faces with a qubit of face f
Touching(f) == {C.qubits[C.faces[f][i] + 1][j] + 1 : <<i, j>> \in {<<i, j>> \in (1..Len(C.faces[f])) \X (1..3) : j <= Len(C.qubits[C.faces[f][i] + 1])}} \ {f}
Odd(s) == Cardinality(s) % 2 = 1
Wrong ==
  IF N # Size THEN "NumberOfQubits"
  ELSE IF F # (N - 1) \div 2 \/ Len(C.h) # F THEN "NumberOfFaces"
  ELSE IF \E f \in 1..F : HRow[f] # Face[f] \/ Cardinality(Range(C.faces[f])) # Len(C.faces[f]) THEN "CheckMatrixIsTheFaces"
  ELSE IF Len(C.qubits) # N \/ \E q \in 1..N : Range(C.qubits[q]) # {f - 1 : f \in {g \in 1..F : WAt(Face[g], q - 1) = 1}}
                                              \/ Cardinality(Range(C.qubits[q])) # Len(C.qubits[q]) THEN "FacesAndQubitsAgree"
  ELSE IF \E f \in 1..F : WPop(Face[f]) \notin Weights THEN "FaceSizes"
  ELSE IF \E q \in 1..N : Len(C.qubits[q]) \notin 1..3 THEN "AtMostThreeFacesAtAQubit"
  \* faces share no qubit or an edge (two qubits): all checks commute
  ELSE IF \E f \in 1..F : \E g \in Touching(f) : WOverlap(Face[f], Face[g]) # 2 THEN "FacesShareEdges"
  \* the three corners of the triangle are the qubits of a single face
  ELSE IF Cardinality({q \in 1..N : Len(C.qubits[q]) = 1}) # 3 THEN "ThreeCorners"
  ELSE IF WRank(Face) # F \/ C.k # 1 THEN "OneLogicalQubit"
  ELSE LET B == WBasis(Face)
           L(s) == [i \in 1..Len(s) |-> WOf(N, s[i])]
           Good(s) == Len(s) = 1 /\ \A i \in 1..Len(s) : WCommute(Face, L(s)[i]) /\ ~WIn(B, L(s)[i])
       IN IF ~Good(C.l) \/ ~Good(C.lx) \/ ~Good(C.lz) THEN "LogicalIsALogical"
          \* a logical operator on d qubits exists: the distance is not larger than claimed
          ELSE IF C.witness # <<>> /\ (~Good(<<C.witness>>) \/ WPop(WOf(N, C.witness)) # D) THEN "DistanceNotLarger"
          ELSE IF C.l2 # <<>> /\ ~Good(C.l2) THEN "LogicalIsALogical"
          ELSE IF \E q \in Range(C.queries) : Range(q.syn) # {f - 1 : f \in {g \in 1..F : Odd(Range(C.faces[g]) \cap Range(q.e))}} THEN "SyndromesOfErrors"
          ELSE IF \E q \in Range(C.queries) : q.logical # Odd(Range(C.l[1]) \cap Range(q.e)) THEN "LogicalErrorsFound"
          ELSE IF C.equal # <<TRUE, FALSE, FALSE>> THEN "EqualCodes"
          ELSE ""

\* twice the syndrome (as a number) plus the logical parity of a qubit; patterns add up by xor
RECURSIVE SumPow(_, _)
SumPow(s, i) == IF i > Len(s) THEN 0 ELSE Pow2[s[i] + 1] + SumPow(s, i + 1)
Key(q) == SumPow(C.qubits[q + 1], 1) + (IF q \in Range(C.l[1]) THEN 1 ELSE 0)

Init == c \in 1..Len(Cases) /\ phase = "pack" /\ tab = <<>> /\ colour = <<>> /\ layer = {} /\ seen = {} /\ bad = ""
InRange == \A f \in 1..F : \A q \in Range(C.faces[f]) \cup Range(C.h[f]) : q >= 0 /\ q < N
Pack == phase = "pack" /\ phase' = "start" /\ UNCHANGED <<c, layer, seen, colour>>
        /\ IF C.status # "ok" THEN bad' = "Constructs" /\ tab' = <<>>
           ELSE IF Len(C.h) # F THEN bad' = "NumberOfFaces" /\ tab' = <<>>
           ELSE IF ~InRange THEN bad' = "FacesAndQubitsAgree" /\ tab' = <<>>
           ELSE bad' = "" /\ tab' = [face |-> [f \in 1..F |-> WOf(N, C.faces[f])], h |-> [f \in 1..F |-> WOf(N, C.h[f])]]
Start == bad = "" /\ phase = "start" /\ bad' = Wrong /\ phase' = "colour" /\ UNCHANGED <<c, layer, seen, colour>>
         /\ tab' = IF bad' = "" THEN [face |-> tab.face, h |-> tab.h, near |-> [f \in 1..F |-> Touching(f)]] ELSE tab
\* the first face is red; then all faces that touch two colours get the third, at the same time. Where no colour is
\* forced, one face next to coloured ones chooses. colour[f] = 0: not yet
ColourOf(f) == IF colour = <<>> THEN 0 ELSE colour[f]
Paint ==
  /\ bad = "" /\ phase = "colour"
  \* the existential quantifiers only name values, so that each is computed once
  /\ \E todo \in {{f \in 1..F : ColourOf(f) = 0}} :
     \E cols \in {[f \in todo |-> {ColourOf(x) : x \in tab.near[f]} \ {0}]} :
     \E batch \in {LET forced == {f \in todo : Cardinality(cols[f]) >= 2}
                        best == {f \in todo : cols[f] # {}}
                    IN IF forced # {} THEN forced ELSE IF best # {} THEN {CHOOSE f \in best : TRUE}
                       ELSE IF todo # {} THEN {CHOOSE f \in todo : TRUE} ELSE {}} :
        IF todo = {}
        THEN IF \E f \in 1..F : \E g \in tab.near[f] : colour[f] = colour[g]
             THEN bad' = "ThreeColourable" /\ UNCHANGED <<tab, colour, phase, layer, seen>>
             ELSE /\ phase' = "errors" /\ layer' = {<<-1, 0>>} /\ seen' = {0} /\ colour' = <<0>>
                  /\ tab' = [tab EXCEPT !.h = [q \in 1..N |-> IF C.errors THEN Key(q - 1) ELSE 0]] /\ UNCHANGED bad
        ELSE IF \E f \in todo : Cardinality(cols[f]) = 3
        THEN bad' = "ThreeColourable" /\ UNCHANGED <<tab, colour, phase, layer, seen>>
        ELSE /\ colour' = [f \in 1..F |-> IF f \in batch THEN CHOOSE x \in {1, 2, 3} \ cols[f] : \A y \in {1, 2, 3} \ cols[f] : x <= y ELSE ColourOf(f)]
             /\ UNCHANGED <<tab, bad, phase, layer, seen>>
  /\ UNCHANGED c
\* all patterns with one qubit more; patterns are kept with their largest qubit
Extend ==
  /\ bad = "" /\ phase = "errors" /\ C.errors
  /\ layer # {}
  /\ \E next \in {UNION {{<<q, e[2] ^^ tab.h[q + 1]>> : q \in (e[1] + 1)..(N - 1)} : e \in layer}} :
     \E all \in {seen \cup {e[2] : e \in next}} :
     LET done == colour[1] + 1
     IN \* two patterns with one syndrome differ by a stabilizer
        /\ bad' = IF Cardinality({x \div 2 : x \in all}) # Cardinality(all) THEN "CorrectsUpToHalfTheDistance" ELSE ""
        /\ seen' = all
        /\ colour' = <<done>>
        /\ layer' = IF done = T THEN {} ELSE next
  /\ UNCHANGED <<c, tab, phase>>
Finished == bad = "" /\ phase = "errors" /\ (layer = {} \/ ~C.errors) /\ UNCHANGED vars
Next == Pack \/ Start \/ Paint \/ Extend \/ Finished

Constructs == bad # "Constructs"
NumberOfQubits == bad # "NumberOfQubits"
NumberOfFaces == bad # "NumberOfFaces"
FacesAndQubitsAgree == bad # "FacesAndQubitsAgree"
CheckMatrixIsTheFaces == bad # "CheckMatrixIsTheFaces"
FaceSizes == bad # "FaceSizes"
AtMostThreeFacesAtAQubit == bad # "AtMostThreeFacesAtAQubit"
FacesShareEdges == bad # "FacesShareEdges"
ThreeCorners == bad # "ThreeCorners"
OneLogicalQubit == bad # "OneLogicalQubit"
LogicalIsALogical == bad # "LogicalIsALogical"
DistanceNotLarger == bad # "DistanceNotLarger"
SyndromesOfErrors == bad # "SyndromesOfErrors"
LogicalErrorsFound == bad # "LogicalErrorsFound"
EqualCodes == bad # "EqualCodes"
ThreeColourable == bad # "ThreeColourable"
CorrectsUpToHalfTheDistance == bad # "CorrectsUpToHalfTheDistance"
=============================================================================
