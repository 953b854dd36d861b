INIT Init
NEXT Next
INVARIANTS
  Computes
  Rank_
  Solution
  RowSpaceMembership
  Transpose
  SyndromeIsTheProduct
  ResidualIsTheSum
  RowSwap
  CodeKeepsItsMatrices
  StabilizerIffInTheRowSpaces
  AsManyRunsAsAskedFor
  RunHasTheSyndromeOfItsError
  ErrorsFollowTheRate
  SuccessIffResidualIsAStabilizer
  RunsUseTheDecoder
  WordErrorRateCountsTheFailures
  SameRootIffUnited
  RootKnowsTheSize
  RootKnowsTheChecks
  ChildrenSpanTheCluster
