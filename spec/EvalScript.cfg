INIT Init
NEXT Next
INVARIANTS
  RejectsUnknownCodes
  RunsForKnownCodes
  SimulatesOnce
  SimulatesTheCodeNamed
  SimulatesTheStateAsked
  SimulatesTheErrorRate
  ParallelUnlessAskedOtherwise
  SamplesTheErrorsAsked
  TakesTheStoredCircuit
  LeavesTheVerificationOut
  NaiveVerificationMeasuresAllStabilizers
  PrintsTheResult
  OneRowPerErrorRate
  PassesTheArguments
  EveryErrorRateOnce
  CoversTheRange
  NamesTheColumns
