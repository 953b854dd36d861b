INIT Init
NEXT Next
INVARIANTS
  NoException
  OneDescriptionOfTheNoise
  DecoderHasItsMatrix
  ThresholdedSyndrome
  DataChannelKept
  SoftValuesOfThisSyndrome
  AnswerOfTheDecoder
  SyndromeNotChanged
