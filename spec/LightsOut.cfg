INIT Init
NEXT Next
INVARIANTS
  UnsolvableRefused
  SolvableSolved
  OneValuePerSwitch
  AllLightsOff
  LightestSolution
  SmallErrorsCorrected
  UnknownDecoderRefused
  Simulates
  ResultNamesTheRun
  RateIsAFractionOfTheRuns
  ErrorBarOfTheRate
  LeastWeightOfALogicalError
  CountsItsFailures
  NoErrorsNoFailures
  AllQubitsFlipped
  RateOfALightestSolution
  EveryRunHasItsFile
  FilesNamedLikeTheirRun
