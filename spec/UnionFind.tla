------------------------------ MODULE UnionFind ------------------------------
(* Cluster growth of the union-find decoders (UFDecoder, UFHeuristic) on the *)
(* Tanner graph of a parity-check matrix, and what an estimate may be once   *)
(* growth has stopped. A configuration of the decoder is a partition of the  *)
(* nodes it has touched into clusters; random and tied choices give sets of  *)
(* configurations, so a behaviour visits the set of configurations that a    *)
(* decoder may be in after each round of growth.                             *)
EXTENDS Gf2, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES c, nb, live, final, bad
vars == <<c, nb, live, final, bad>>
C == Cases[c]
N == C.n
M == Len(C.rows)
\* bits are 0..N-1, check i is N+i
Neighbours(k) == LET D == Cases[k] IN
  [v \in 0..(D.n + Len(D.rows) - 1) |->
     IF v < D.n THEN {D.n + i : i \in {j \in 0..(Len(D.rows) - 1) : Bit(D.rows[j + 1], v) = 1}}
     ELSE {b \in 0..(D.n - 1) : Bit(D.rows[v - D.n + 1], b) = 1}]
Column(b) == LET RECURSIVE F(_, _)
                 F(i, acc) == IF i > M THEN acc ELSE F(i + 1, acc + Bit(C.rows[i], b) * Pow2[i - 1])
             IN F(1, 0)

IsBit(v) == v < N
Around(S) == S \cup UNION {nb[v] : v \in S}
Interior(K) == {b \in K : IsBit(b) /\ nb[b] \subseteq K}
RECURSIVE SumPow(_)
SumPow(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Pow2[x] + SumPow(S \ {x})
SynIn(K) == LET T == {v - N : v \in {w \in K : ~IsBit(w)}} IN C.syn & SumPow(T)
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o AsSeq(S \ {x})

\* A cluster is done when it explains the part of the syndrome in it: UFDecoder asks the linear system of
\* the bits that have all their checks inside, UFHeuristic asks that every check of it has such a bit.
Done1(K) ==
  IF C.decoder = "UFDecoder" THEN SynIn(K) = 0 \/ InSpan([i \in 1..Cardinality(Interior(K)) |-> Column(AsSeq(Interior(K))[i])], SynIn(K))
  ELSE \A v \in K : IsBit(v) \/ nb[v] \cap Interior(K) # {}

\* Clusters that touch become one. UFDecoder takes connected components of all the nodes it holds;
\* UFHeuristic unites clusters when one of them grows over a node of the other.
RECURSIVE Absorb(_, _)
Absorb(K, P) == LET T == {Q \in P : Q \cap K # {}} IN
                IF T = {} THEN {K} \cup P ELSE Absorb(K \cup UNION T, P \ T)
RECURSIVE Merge(_, _)
Merge(S, P) == IF S = {} THEN P ELSE LET K == CHOOSE K \in S : TRUE IN Merge(S \ {K}, Absorb(K, P))
RECURSIVE Reach(_, _)
Reach(T, S) == LET U == Around(T) \cap S IN IF U = T THEN T ELSE Reach(U, S)
Components(S) == {Reach({v}, S) : v \in S}
Clusters(P) == IF C.decoder = "UFDecoder" THEN Components(UNION P) ELSE P
Grow(G, P) == Clusters(Merge({Around(K) : K \in G}, P \ G))

\* UFDecoder grows all clusters in the order of the nodes, and checks that the pass adds are grown in the same pass
GrowInOrder(P) == LET S == UNION P
                      S1 == S \cup UNION {nb[v] : v \in {w \in S : IsBit(w)}}
                  IN Components(S1 \cup UNION {nb[v] : v \in {w \in S1 : ~IsBit(w)}})

Smallest(I) == {K \in I : \A J \in I : Cardinality(K) <= Cardinality(J)}
Steps(P) ==
  LET I == {K \in P : ~Done1(K)} IN
  CASE C.growth = "ALL_COMPONENTS" -> {Grow(P, P)} \cup (IF C.decoder = "UFDecoder" THEN {GrowInOrder(P)} ELSE {})
    [] C.growth = "INVALID_COMPONENTS" -> {Grow(I, P)}
    [] C.growth = "SINGLE_SMALLEST" -> {Grow({K}, P) : K \in Smallest(I)}
    [] C.growth = "SINGLE_RANDOM" -> {Grow({K}, P) : K \in I}
    [] C.growth = "SINGLE_QUBIT_RANDOM" ->
         LET S == UNION P
             open == {v \in UNION I : ~(nb[v] \subseteq S)}
         IN IF open = {} THEN {P} ELSE {Clusters({S \cup nb[v]}) : v \in open}

Stopped(P) == \A K \in P : Done1(K)
Start(k) == {{Cases[k].n + i} : i \in {j \in 0..(Len(Cases[k].rows) - 1) : Bit(Cases[k].syn, j) = 1}}
\* where there are too many orders of growth, only the largest possible clusters are considered
RECURSIVE All(_, _)
All(S, f) == LET U == S \cup UNION {f[v] : v \in S} IN IF U = S THEN S ELSE All(U, f)

Init == /\ c \in 1..Len(Cases) /\ nb = Neighbours(c) /\ bad = ""
        /\ IF Cases[c].coarse THEN live = {} /\ final = {{All(K, nb) : K \in Start(c)}}
                               ELSE live = {Start(c)} /\ final = {}

\* one round of growth in every configuration that is not finished
Step ==
  /\ bad = "" /\ live # {}
  /\ LET stop == {P \in live : Stopped(P)}
         next == [P \in live \ stop |-> Steps(P) \ {P}]
         \* nothing left to grow: the syndrome has no explanation there
         stuck == {P \in live \ stop : next[P] = {}}
     IN /\ final' = final \cup stop \cup stuck
        /\ live' = (UNION {next[P] : P \in DOMAIN next}) \ (final \cup stop \cup stuck)
  /\ UNCHANGED <<c, nb, bad>>

Est == Range(C.est)
EstMask == SumPow(Est)
InsideOf(P) == IF C.decoder = "UFDecoder" THEN UNION {Interior(K) : K \in P} ELSE {v \in UNION P : IsBit(v)}
Explained == C.decoder = "UFDecoder" \/ C.single
Wrong ==
  IF C.status # "ok" THEN "Decodes"
  ELSE IF \E e \in Est : e < 0 \/ e >= N THEN "EstimateHasTheLengthOfTheCode"
  ELSE IF Len(C.vec) # N THEN "EstimateHasTheLengthOfTheCode"
  ELSE IF Cardinality(Est) # Len(C.est) \/ \E i \in 0..(N - 1) : (C.vec[i + 1] = 1) # (i \in Est) THEN "VectorAndIndicesAgree"
  \* every syndrome of an error is explained by the estimate of UFDecoder
  ELSE IF Explained /\ InSpan([b \in 1..N |-> Column(b - 1)], C.syn) /\ SynMaskOf(C.rows, EstMask) # C.syn
    THEN "EstimateHasTheSyndrome"
  ELSE IF ~\E P \in final : Est \subseteq InsideOf(P) THEN "EstimateInsideTheClusters"
  ELSE ""

Judge == bad = "" /\ live = {} /\ bad' = (IF Wrong = "" THEN "ok" ELSE Wrong) /\ UNCHANGED <<c, nb, live, final>>
Finished == bad = "ok" /\ UNCHANGED vars
Next == Step \/ Judge \/ Finished

Decodes == bad # "Decodes"
EstimateHasTheLengthOfTheCode == bad # "EstimateHasTheLengthOfTheCode"
VectorAndIndicesAgree == bad # "VectorAndIndicesAgree"
EstimateHasTheSyndrome == bad # "EstimateHasTheSyndrome"
EstimateInsideTheClusters == bad # "EstimateInsideTheClusters"
=============================================================================
