INIT Init
NEXT Next
INVARIANTS
  KnownOperations
  MeasurementsKeepTheirBits
  PreparesTheState
  MeasurementsAreCertain
  FewFaultsSpreadLittleX
  FewFaultsSpreadLittleZ
  FaultSetComplete
  FaultSetSound
  FaultSetLeavesOutSmallOnes
  FaultSetReduced
  FaultSetLeaders
