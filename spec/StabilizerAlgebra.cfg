INIT Init
NEXT Next
INVARIANTS
  ValidCodeAccepted
  InvalidCodeRefused
  QubitsMinusRank
  DistanceKept
  SyndromeIsAnticommutation
  EquivalentIffStabilizerApart
  StringsShowTheGenerators
  CommuteIffEvenOverlap
  EqualIffSameGroup
  EqualCodesHashAlike
