INIT Init
NEXT Next
INVARIANTS
  CodeIsConstructed
  ChecksAreTheLiftedProduct
  ProtographLiftsToTheChecks
  BlocksOfTheProduct
  ChecksCommute
  ParametersOfTheCode
  LogicalsAreABasis
  FileIsReadable
  NumberOfQubits
  ToricCodeOfTheSize
  NumberOfLogicalQubits
  WeightsAsNamed
  CutsCommute
  DistanceAsNamed
