INIT Init
NEXT Next
INVARIANTS
  NoException
  EveryRoundDecodes
  DecodersHaveTheirMatrices
  DecoderInputsAreBinary
  DecodersHaveTheirChannels
  MetaSyndromeOfTheSyndrome
  SyndromeRepairedWithMetaCode
  SyndromeOfTheErrorWithItsNoise
  LastRoundIsPerfect
  ErrorsAddToTheResidual
  ResultCountsTheSuccesses
  SavedResultIsTheResult
  CrashLeavesTheLastSave
  SeedReproduces
  ErrorsAtTheirRates
  FlipsAtTheirRates
  SoftInformationCalibrated
