----------------------------- MODULE PrepOptimal -----------------------------
(* Optimality of preparation and verification circuits. The states of the   *)
(* preparation search are the spaces that the checks span (as sets of       *)
(* masks), a step is one CX or one layer of disjoint CX; the goal is a      *)
(* space spanned by single qubits. The states of the verification search    *)
(* are the sets of faults still to be detected; a step measures one more    *)
(* stabilizer. TLC visits every state that is cheaper than the solution the *)
(* code has returned and judges whether it is a goal.                       *)
EXTENDS Gf2, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, phase, node, pos, cost, count, bad
vars == <<c, phase, node, pos, cost, count, bad>>
C == Cases[c]
N == C.n
Prep == C.kind \in {"gates", "layers"}

\* ------------------------------------------------------------ preparation
\* qubit i is added to qubit j
Add(v, i, j) == IF Bit(v, i) = 1 THEN v ^^ Pow2[j] ELSE v
Move(V, i, j) == {Add(v, i, j) : v \in V}
Units(V) == {v \in V : Pop(v) = 1}
Goal(V) == Pow2[Cardinality(Units(V))] = Cardinality(V)
RECURSIVE MatchFrom(_)
\* sets of disjoint ordered pairs of the qubits in Q
MatchFrom(Q) ==
  IF Cardinality(Q) < 2 THEN {{}}
  ELSE LET x == CHOOSE x \in Q : \A y \in Q : x <= y
           rest == MatchFrom(Q \ {x})
       IN rest \cup UNION {UNION {{{<<x, y>>} \cup m, {<<y, x>>} \cup m} : m \in MatchFrom(Q \ {x, y})} : y \in Q \ {x}}
\* maximal matchings are not enough: an addition may do harm
Matchings == [n \in 2..6 |-> TLCEval(MatchFrom(0..(n - 1)) \ {{}})]
RECURSIVE MoveAll(_, _)
MoveAll(V, m) == IF m = {} THEN V ELSE LET p == CHOOSE p \in m : TRUE IN MoveAll(Move(V, p[1], p[2]), m \ {p})

\* [from, to] in the order in which they undo the circuit
Steps == C.steps
RECURSIVE DepthFrom(_, _)
DepthFrom(i, at) == IF i > Len(Steps) THEN at
                    ELSE LET a == Steps[i][1]  b == Steps[i][2]
                             d == 1 + (IF at[a] > at[b] THEN at[a] ELSE at[b])
                         IN DepthFrom(i + 1, [at EXCEPT ![a] = d, ![b] = d])
Depth == LET at == DepthFrom(1, [q \in 0..(N - 1) |-> 0]) IN CHOOSE d \in {at[q] : q \in 0..(N - 1)} : \A q \in 0..(N - 1) : d >= at[q]
Price == IF C.kind = "gates" THEN Len(Steps) ELSE IF C.kind = "layers" THEN Depth ELSE LET RECURSIVE S(_)
                                                                                          S(i) == IF i > Len(C.meas) THEN 0 ELSE Pop(C.meas[i]) + S(i + 1)
                                                                                      IN S(1)
\* ------------------------------------------------------------ verification
Measurable == Span(C.gens) \ {0}
DetectedBy(s) == {f \in Range(C.faults) : Par(f & s) = 1}
Found == C.found
Limit == IF Found THEN Price ELSE C.budget

Init == /\ c \in 1..Len(Cases) /\ pos = 1 /\ cost = 0 /\ count = 0
        /\ phase = "answer" /\ bad = ""
        /\ node = IF Prep THEN Span(C.gens) ELSE Range(C.faults)
\* the answer of the code is a solution
Answer ==
  /\ bad = "" /\ phase = "answer"
  /\ IF Prep
     THEN IF pos <= Len(Steps) THEN node' = Move(node, Steps[pos][1], Steps[pos][2]) /\ pos' = pos + 1 /\ UNCHANGED <<c, phase, cost, count, bad>>
          ELSE /\ bad' = IF Goal(node) THEN "" ELSE "CircuitPreparesTheChecks"
               /\ node' = Span(C.gens) /\ phase' = "search" /\ UNCHANGED <<c, pos, cost, count>>
     ELSE /\ bad' = IF ~Found THEN "" ELSE IF \E i \in 1..Len(C.meas) : C.meas[i] \notin Measurable THEN "MeasuresStabilizers"
                    ELSE IF node \ UNION {DetectedBy(C.meas[i]) : i \in 1..Len(C.meas)} # {} THEN "DetectsEveryFault"
                    ELSE IF Len(C.meas) > C.most THEN "NotMoreMeasurementsThanAllowed" ELSE ""
          /\ phase' = (IF C.judge THEN "search" ELSE "done") /\ UNCHANGED <<c, node, pos, cost, count>>
\* a goal that is cheaper than the answer
Wrong(n, co, k) ==
  IF Prep THEN IF Goal(n) /\ co < Price THEN IF C.kind = "gates" THEN "FewestGates" ELSE "FewestLayers" ELSE ""
  ELSE IF n # {} \/ k > C.most THEN ""
  ELSE IF ~Found THEN "FindsAVerification"
  ELSE IF co < Price THEN "FewestCnots"
  ELSE IF co = Price /\ k < Len(C.meas) THEN "FewestMeasurements" ELSE ""
Search ==
  /\ bad = "" /\ phase = "search" /\ UNCHANGED <<c, pos, phase>>
  /\ IF Prep
     THEN /\ cost < Price - 1 /\ cost' = cost + 1 /\ UNCHANGED count
          /\ IF C.kind = "gates" THEN \E i, j \in 0..(N - 1) : i # j /\ node' = Move(node, i, j)
             ELSE \E m \in Matchings[N] : node' = MoveAll(node, m)
     ELSE /\ node # {}
          /\ LET f == CHOOSE f \in node : \A g \in node : f <= g IN
             \E s \in Measurable : /\ Par(f & s) = 1 /\ cost + Pop(s) <= Limit
                                   /\ cost' = cost + Pop(s) /\ count' = count + 1 /\ node' = node \ DetectedBy(s)
  /\ bad' = Wrong(node', cost', count')
\* also the start may be a goal
Finished == bad = "" /\ phase \in {"search", "done"} /\ UNCHANGED vars
Next == Answer \/ Search \/ Finished

CircuitPreparesTheChecks == bad # "CircuitPreparesTheChecks"
MeasuresStabilizers == bad # "MeasuresStabilizers"
DetectsEveryFault == bad # "DetectsEveryFault"
NotMoreMeasurementsThanAllowed == bad # "NotMoreMeasurementsThanAllowed"
FewestGates == bad # "FewestGates"
FewestLayers == bad # "FewestLayers"
FindsAVerification == bad # "FindsAVerification"
FewestCnots == bad # "FewestCnots"
FewestMeasurements == bad # "FewestMeasurements"
=============================================================================
