INIT Init
NEXT Next
INVARIANTS
  Encoded
  MeasuredValueIsOriginal
  DistributionIsOriginal
  OnlyOriginalMeasurementsWriteUserBits
  EveryOriginalBitIsMeasured
  UnmeasuredUserBitsStayZero
  DefiniteControls
  KnownGates
