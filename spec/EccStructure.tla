---------------------------- MODULE EccStructure ----------------------------
(* Shape of the circuits apply_ecc returns: registers, index ranges, which  *)
(* gates are refused, which qubits the gates of one logical qubit use and   *)
(* when corrections are written. The operations are visited one by one.     *)
EXTENDS Gf2, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

\* docs/EccFramework.rst: n logical qubits need Data*n + Anc physical qubits
Data == [Id |-> 1, Q3Shor |-> 3, Q5Laflamme |-> 5, Q7Steane |-> 7, Q9Shor |-> 9, Q9Surface |-> 9, Q18Surface |-> 36]
Anc == [Id |-> 0, Q3Shor |-> 2, Q5Laflamme |-> 4, Q7Steane |-> 3, Q9Shor |-> 8, Q9Surface |-> 8, Q18Surface |-> 0]
\* classical bits that the code adds
Extra == [Id |-> 0, Q3Shor |-> 2, Q5Laflamme |-> 5, Q7Steane |-> 3, Q9Shor |-> 8, Q9Surface |-> 8, Q18Surface |-> 8]
Basic == {"x", "y", "z", "id", "barrier"}
Accepts == [Id |-> Basic \cup {"h", "s", "sdg", "t", "tdg", "cx", "cy", "cz", "swap", "ccx", "rx", "u3", "ch", "cswap"},
            Q3Shor |-> Basic \cup {"s", "sdg", "t", "tdg", "cx", "cy", "cz"},
            Q5Laflamme |-> Basic,
            Q7Steane |-> Basic \cup {"h", "s", "sdg", "t", "tdg", "cx", "cy", "cz"},
            Q9Shor |-> Basic \cup {"cx", "cy", "cz"},
            Q9Surface |-> Basic \cup {"h"},
            Q18Surface |-> Basic \cup {"h"}]
\* neither promised nor ruled out
Either == [Id |-> {"reset", "if"}, Q3Shor |-> {"ccx", "ccz", "cs", "csdg"}, Q5Laflamme |-> {}, Q7Steane |-> {}, Q9Shor |-> {},
           Q9Surface |-> {}, Q18Surface |-> {}]

VARIABLES c, k, bad
vars == <<c, k, bad>>
C == Cases[c]

Wrong ==
  CASE C.kind = "gate" ->
         IF C.gate \in Accepts[C.ecc] /\ C.status # "ok" THEN "PromisedGateAccepted"
         ELSE IF C.gate \notin Accepts[C.ecc] \cup Either[C.ecc] /\ C.status = "ok" THEN "OtherGateRefused"
         ELSE ""
    [] C.kind = "name" -> IF C.status = "ok" THEN "UnknownCodeRefused" ELSE ""
    [] C.kind = "shape" ->
         IF C.status # "ok" THEN "PromisedGateAccepted"
         ELSE IF C.nq # Data[C.ecc] * C.rn + Anc[C.ecc] THEN "NumberOfQubits"
         ELSE IF Len(C.cregs) < Len(C.rcregs) \/ SubSeq(C.cregs, 1, Len(C.rcregs)) # C.rcregs THEN "ClassicalRegistersKept"
         ELSE IF C.nc # C.rnc + Extra[C.ecc] THEN "NumberOfClassicalBits"
         ELSE ""
    [] C.kind = "rounds" ->
         IF C.status # "ok" THEN "PromisedGateAccepted"
         ELSE IF C.anc[1] < 0 THEN "PromisedGateAccepted"
         \* C.anc[i]: syndrome measurements with frequency C.freqs[i]; frequencies are 0, 1, then others
         ELSE IF (C.anc[2] - C.anc[1]) % C.gates # 0 THEN "CorrectionAfterEveryFrequencyGates"
         ELSE LET per == (C.anc[2] - C.anc[1]) \div C.gates IN
              IF \E i \in 3..Len(C.freqs) : C.anc[i] # C.anc[1] + per * (C.gates \div C.freqs[i])
                THEN "CorrectionAfterEveryFrequencyGates" 
              ELSE IF C.ecc # "Id" /\ per = 0 THEN "CorrectionAfterEveryFrequencyGates"
              ELSE ""
    [] OTHER -> ""

\* what is demanded of one operation
OpWrong(o) ==
  IF \E i \in 1..Len(o.q) : o.q[i] < 0 \/ o.q[i] >= C.nq THEN "QubitsInRange"
  ELSE IF o.cb >= C.nc THEN "ClassicalBitsInRange"
  ELSE IF ~o.inreg THEN "QubitsInRange"
  ELSE IF Cardinality(Range(o.q)) # Len(o.q) THEN "QubitsOfAnOperationDiffer"
  \* the gate of logical qubit i only uses its own block i, i+n, i+2n, ... or the shared ancillas
  ELSE IF o.own # <<>> /\ \E i \in 1..Len(o.q) :
            o.q[i] < Data[C.ecc] * C.rn /\ \A j \in 1..Len(o.own) : o.q[i] % C.rn # o.own[j]
    THEN "GateStaysInItsBlocks"
  ELSE IF C.ecc = "Id" /\ o.same = 0 THEN "IdLeavesTheCircuit"
  ELSE ""

Init == c \in 1..Len(Cases) /\ k = 0 /\ bad = ""
Start == bad = "" /\ k = 0 /\ k' = 1 /\ bad' = Wrong /\ UNCHANGED c
Visit == bad = "" /\ k >= 1 /\ k <= Len(C.ops) /\ bad' = OpWrong(C.ops[k]) /\ k' = k + 1 /\ UNCHANGED c
Done == bad = "" /\ k > Len(C.ops) /\ k >= 1 /\ UNCHANGED vars
Next == Start \/ Visit \/ Done

PromisedGateAccepted == bad # "PromisedGateAccepted"
OtherGateRefused == bad # "OtherGateRefused"
UnknownCodeRefused == bad # "UnknownCodeRefused"
NumberOfQubits == bad # "NumberOfQubits"
ClassicalRegistersKept == bad # "ClassicalRegistersKept"
NumberOfClassicalBits == bad # "NumberOfClassicalBits"
CorrectionAfterEveryFrequencyGates == bad # "CorrectionAfterEveryFrequencyGates"
QubitsInRange == bad # "QubitsInRange"
ClassicalBitsInRange == bad # "ClassicalBitsInRange"
QubitsOfAnOperationDiffer == bad # "QubitsOfAnOperationDiffer"
GateStaysInItsBlocks == bad # "GateStaysInItsBlocks"
IdLeavesTheCircuit == bad # "IdLeavesTheCircuit"
=============================================================================
