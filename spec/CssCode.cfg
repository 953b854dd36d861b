INIT Init
NEXT Next
INVARIANTS
  ValidCodeAccepted
  InvalidCodeRefused
  QubitsMinusRanks
  DistancesKept
  ChecksKept
  OneLogicalPairPerQubit
  LogicalsCommuteWithTheChecks
  LogicalsIndependent
  StringsShowTheMatrices
  SelfDualIffSameSpaces
  WeightsOfTheFamily
  ParametersAsStated
  DistanceNotSmaller
  DistanceNotLarger
  SyndromeIsTheParityOfEveryCheck
  StabilizerIffInTheSpan
  CosetsOfTheStabilizers
  LogicalIffNoStabilizer
  DistanceIsTheLeastLogicalWeight
  FewErrorsAreNoLogical
