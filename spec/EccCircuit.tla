----------------------------- MODULE EccCircuit -----------------------------
(* A circuit encoded by apply_ecc runs next to the circuit it was made of.  *)
(* Every operation of the encoded circuit is one action on a set of         *)
(* stabilizer tableaux (one per group of qubits that interact) and on the   *)
(* classical bits. The original circuit is run first (action RefStep). A    *)
(* measurement into a bit of the original circuit must give what the        *)
(* original measurement gives where that is definite, and over all random   *)
(* outcomes the bits must have the distribution of the original circuit,    *)
(* whatever the syndromes were and whichever fault was planted.             *)
EXTENDS Tableau, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES c,     \* index of the case
          phase, \* "ref", "run", "done"
          k,     \* next operation
          R0,    \* tableau of the original circuit before its measurements
          br,    \* branches of the encoded circuit, see below
          sc,    \* consumed random outcomes
          approx,\* a branching was cut short, probabilities are not compared
          bad    \* first violated clause

vars == <<c, phase, k, R0, br, sc, approx, bad>>
C == Cases[c]

(* A branch is [T |-> tableaux of the encoded circuit, R |-> tableau of the original circuit after the  *)
(* measurements so far, cb |-> classical bits, got |-> measured bits of the original circuit,           *)
(* w |-> number of random outcomes since operation C.fork, rr |-> random outcomes of the original].     *)
(* Random outcomes before operation C.fork (syndromes of the encoding, say) are chosen: all of them,    *)
(* one behaviour each, or by a script. Later ones split the branch, which weighs 2^-w.                  *)

\* T and Tdg are not Clifford gates: a case replaces them, on both sides alike, by powers of S
Subst(g, mode) == CASE g = "t" -> mode [] g = "tdg" -> (IF mode = "s" THEN "sdg" ELSE mode) [] OTHER -> g

Init == /\ c \in 1..Len(Cases)
        /\ phase = "ref" /\ k = 1
        /\ R0 = Zero(Cases[c].rn)
        /\ br = <<>> /\ sc = 0 /\ approx = FALSE /\ bad = ""

Running == bad = ""

RefStep ==
  /\ Running /\ phase = "ref" /\ k <= Len(C.rops)
  /\ LET o == C.rops[k] IN
     R0' = IF o.g = "id" THEN R0
           ELSE IF o.g = "ccx" \* used on basis states only
             THEN IF DetValue(R0, o.q[1]) = 1 /\ DetValue(R0, o.q[2]) = 1 THEN Gate(R0, "x", <<o.q[3]>>) ELSE R0
           ELSE Gate(R0, Subst(o.g, C.tmode), o.q)
  /\ k' = k + 1
  /\ UNCHANGED <<c, phase, br, sc, approx, bad>>
RefEnd ==
  /\ Running /\ phase = "ref" /\ k > Len(C.rops)
  /\ phase' = "run" /\ k' = 1
  /\ br' = << [T |-> [b \in 1..Len(C.blocks) |-> Zero(C.blocks[b])], R |-> R0,
               cb |-> [i \in 1..C.ncb |-> 0], got |-> {}, w |-> 0, rr |-> 0] >>
  /\ UNCHANGED <<c, R0, sc, approx, bad>>

Op == C.ops[k]
Holds(b, o) == \A i \in 1..Len(o.cond) : b.cb[o.cond[i]] = o.cv[i]
Active == Running /\ phase = "run" /\ k <= Len(C.ops)
MapBr(f(_)) == br' = [i \in 1..Len(br) |-> IF Holds(br[i], Op) THEN f(br[i]) ELSE br[i]]

Nothing == /\ Active /\ Op.g = "id"
           /\ k' = k + 1 /\ UNCHANGED <<c, phase, R0, br, sc, approx, bad>>

Unitary ==
  /\ Active
  /\ LET g == Subst(Op.g, C.tmode)
         f(b) == [b EXCEPT !.T[Op.b] = Gate(@, g, Op.q)]
     IN g \in Gates1 \cup Gates2 /\ MapBr(f)
  /\ k' = k + 1 /\ UNCHANGED <<c, phase, R0, sc, approx, bad>>

\* doubly controlled X: only where one of the controls has a definite value
Indefinite(b) == Holds(b, Op) /\ IsRandom(b.T[Op.b], Op.q[1]) /\ IsRandom(b.T[Op.b], Op.q[2])
Tof(b) == LET t == b.T[Op.b]
              on == IF IsRandom(t, Op.q[1]) THEN <<Op.q[2], Op.q[1]>> ELSE <<Op.q[1], Op.q[2]>>
          IN IF DetValue(t, on[1]) = 1 THEN [b EXCEPT !.T[Op.b] = Gate(t, "cx", <<on[2], Op.q[3]>>)] ELSE b
Toffoli ==
  /\ Active /\ Op.g = "ccx"
  /\ IF \E i \in 1..Len(br) : Indefinite(br[i]) THEN br' = br /\ bad' = "DefiniteControls"
     ELSE MapBr(Tof) /\ bad' = bad
  /\ k' = k + 1 /\ UNCHANGED <<c, phase, R0, sc, approx>>

\* effect of outcome o (random or not) of measuring / resetting in branch b
User == Op.g = "measure" /\ Op.cb <= C.nuser
Outcome(b, o, random) ==
  LET t == b.T[Op.b]
      a == Op.q[1]
      t2 == IF random THEN Project(t, a, o) ELSE t
      t3 == IF Op.g = "reset" /\ o = 1 THEN Gate(t2, "x", Op.q) ELSE t2
      ra == IF User THEN C.rmeas[Op.cb] ELSE -1
      rrand == User /\ IsRandom(b.R, ra)
  IN [T |-> [b.T EXCEPT ![Op.b] = t3],
      R |-> IF rrand THEN Project(b.R, ra, o) ELSE b.R,
      cb |-> IF Op.g = "measure" THEN [b.cb EXCEPT ![Op.cb] = o] ELSE b.cb,
      got |-> IF User THEN b.got \cup {Op.cb} ELSE b.got,
      w |-> b.w + (IF random /\ k >= C.fork THEN 1 ELSE 0),
      rr |-> b.rr + (IF rrand THEN 1 ELSE 0)]

\* outcomes explored for a random measurement that does not split branches
Choices == IF C.script = <<>> THEN (IF k < C.fork THEN {0, 1} ELSE {0}) ELSE {C.script[(sc % Len(C.script)) + 1]}
Cap == 260
WrongValue(b) == /\ Holds(b, Op) /\ User
                 /\ ~IsRandom(b.R, C.rmeas[Op.cb])
                 /\ \/ IsRandom(b.T[Op.b], Op.q[1])
                    \/ DetValue(b.T[Op.b], Op.q[1]) # DetValue(b.R, C.rmeas[Op.cb])

\* the branches that follow from branch i
Follow(b, o) ==
  IF ~Holds(b, Op) THEN <<b>>
  ELSE IF ~IsRandom(b.T[Op.b], Op.q[1]) THEN <<Outcome(b, DetValue(b.T[Op.b], Op.q[1]), FALSE)>>
  ELSE IF o >= 0 THEN <<Outcome(b, o, TRUE)>>
  ELSE <<Outcome(b, 0, TRUE), Outcome(b, 1, TRUE)>>
RECURSIVE Flat(_, _)
Flat(o, i) == IF i > Len(br) THEN <<>> ELSE Follow(br[i], o) \o Flat(o, i + 1)

SomeRandom == \E i \in 1..Len(br) : Holds(br[i], Op) /\ IsRandom(br[i].T[Op.b], Op.q[1])

Collapse ==
  /\ Active /\ Op.g \in {"reset", "measure"}
  /\ IF User /\ C.rmeas[Op.cb] < 0
       THEN bad' = "OnlyOriginalMeasurementsWriteUserBits" /\ UNCHANGED <<br, sc, approx>>
     ELSE IF \E i \in 1..Len(br) : WrongValue(br[i])
       THEN bad' = "MeasuredValueIsOriginal" /\ UNCHANGED <<br, sc, approx>>
     ELSE IF ~SomeRandom
       THEN br' = Flat(-1, 1) /\ UNCHANGED <<sc, approx, bad>>
     ELSE IF k >= C.fork /\ 2 * Len(br) <= Cap
       THEN br' = Flat(-1, 1) /\ UNCHANGED <<sc, approx, bad>>
     ELSE /\ \E o \in Choices : br' = Flat(o, 1)
          /\ sc' = sc + 1
          /\ approx' = (approx \/ k >= C.fork)
          /\ bad' = bad
  /\ k' = k + 1 /\ UNCHANGED <<c, phase, R0>>

Unknown ==
  /\ Active /\ Op.g \notin {"id", "t", "tdg", "ccx", "reset", "measure"} \cup Gates1 \cup Gates2
  /\ bad' = "KnownGates" /\ UNCHANGED <<c, phase, k, R0, br, sc, approx>>

\* the distribution of the bits of the original circuit: it is uniform over 2^rr values
Val(b) == [i \in 1..C.nuser |-> b.cb[i]]
Vals == {Val(br[i]) : i \in 1..Len(br)}
MaxW == LET W == {br[i].w : i \in 1..Len(br)} IN CHOOSE m \in W : \A w \in W : w <= m
RECURSIVE Weight(_, _)
Weight(v, i) == IF i > Len(br) THEN 0
                ELSE (IF Val(br[i]) = v THEN Pow2[MaxW - br[i].w] ELSE 0) + Weight(v, i + 1)
SameDistribution ==
  LET r == br[1].rr IN
  /\ \A i \in 1..Len(br) : br[i].rr = r
  /\ r <= MaxW
  /\ Cardinality(Vals) = Pow2[r]
  /\ \A v \in Vals : Weight(v, 1) = Pow2[MaxW - r]

Finish ==
  /\ Running /\ phase = "run" /\ k > Len(C.ops)
  /\ phase' = "done"
  /\ bad' = IF \E j \in 1..Len(br) : \E i \in 1..C.nuser : C.rmeas[i] >= 0 /\ i \notin br[j].got
              THEN "EveryOriginalBitIsMeasured"
            ELSE IF \E j \in 1..Len(br) : \E i \in 1..C.nuser : C.rmeas[i] < 0 /\ br[j].cb[i] # 0
              THEN "UnmeasuredUserBitsStayZero"
            ELSE IF ~approx /\ ~SameDistribution THEN "SameDistribution"
            ELSE ""
  /\ UNCHANGED <<c, k, R0, br, sc, approx>>
Done == phase = "done" /\ UNCHANGED vars

Next == RefStep \/ RefEnd \/ Nothing \/ Unitary \/ Toffoli \/ Collapse \/ Unknown \/ Finish \/ Done

MeasuredValueIsOriginal == bad # "MeasuredValueIsOriginal"
DistributionIsOriginal == bad # "SameDistribution"
OnlyOriginalMeasurementsWriteUserBits == bad # "OnlyOriginalMeasurementsWriteUserBits"
EveryOriginalBitIsMeasured == bad # "EveryOriginalBitIsMeasured"
UnmeasuredUserBitsStayZero == bad # "UnmeasuredUserBitsStayZero"
DefiniteControls == bad # "DefiniteControls"
KnownGates == bad # "KnownGates"
Encoded == C.status = "ok"
=============================================================================
