INIT Init
NEXT Next
INVARIANTS
  Decodes
  LengthOfTheEstimate
  VectorAndIndicesAgree
  NoSyndromeNoCorrection
  HalvesAreDecodedOnTheirOwn
  HistoryDoesNotMatter
  ResetForgets
