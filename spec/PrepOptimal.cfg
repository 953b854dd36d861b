INIT Init
NEXT Next
INVARIANTS
  CircuitPreparesTheChecks
  MeasuresStabilizers
  DetectsEveryFault
  NotMoreMeasurementsThanAllowed
  FewestGates
  FewestLayers
  FindsAVerification
  FewestCnots
  FewestMeasurements
