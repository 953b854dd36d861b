INIT Init
NEXT Next
INVARIANTS
  Decodes
  EstimateHasTheLengthOfTheCode
  VectorAndIndicesAgree
  EstimateHasTheSyndrome
  EstimateInsideTheClusters
