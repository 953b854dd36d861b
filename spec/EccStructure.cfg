INIT Init
NEXT Next
INVARIANTS
  PromisedGateAccepted
  OtherGateRefused
  UnknownCodeRefused
  NumberOfQubits
  ClassicalRegistersKept
  NumberOfClassicalBits
  CorrectionAfterEveryFrequencyGates
  QubitsInRange
  ClassicalBitsInRange
  QubitsOfAnOperationDiffer
  GateStaysInItsBlocks
  IdLeavesTheCircuit
