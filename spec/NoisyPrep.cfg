INIT Init
NEXT Next
INVARIANTS
  NoiseStrength
  GatesOfTheCircuit
  NoiseOfTheGates
  IdlingQubitsAreNoisy
  Simulates
  ShotsAreCounted
  AcceptedIffNothingIsDetected
  CountsLogicalErrors
  RatePerLogicalQubit
  DecodesEverySyndrome
  EstimateIsAnError
  EstimateHasTheSyndrome
  EstimateIsLightest
