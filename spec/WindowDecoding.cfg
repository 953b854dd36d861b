INIT Init
NEXT Next
INVARIANTS
  NoException
  EveryWindowDecodes
  DecodingGraphOfTheWindow
  DecoderInputsAreBinary
  DecoderHasItsChannel
  SyndromesOfTheErrors
  ErrorsAddUp
  NextWindowSeesWhatIsLeft
  SoftValuesMoveWithTheirRounds
  CommitsTheFirstHalf
  ExactEstimatesCorrectEverything
  ResultCountsTheSuccesses
  SavedResultIsTheResult
  CrashLeavesTheLastSave
  SeedReproduces
  ErrorsAtTheirRates
  FlipsAtTheirRates
  SoftInformationCalibrated
