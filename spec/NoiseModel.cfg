INIT Init
NEXT Next
INVARIANTS
  NoException
  ChannelForEveryQubit
  RateSharedByBias
  OnlyPossibleErrors
  ErrorsWithTheirChances
  ThresholdAtZero
  SignOfTheSyndrome
  NoNoiseNoChange
  LlrOfTheValue
  SigmaAndRateAreInverse
  SigmaGivesTheRate
  ChanceOfAWrongSign
  LogicalIfAnticommuting
  LogicalIfNoProductOfChecks
  AnalogMatrix
  SingleStageMatrix
  SecondHalfMovesUp
  RateOfFailures
  ErrorBarOfTheRate
  RatePerLogicalQubit
  ConvergedWhenBothSidesAre
