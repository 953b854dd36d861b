INIT Init
NEXT Next
INVARIANTS
  RefusesWhatIsNoComplex
  MapsAreReturned
  MapsAreTheProduct
  BoundariesOfBoundariesVanish
  CodeIsStored
  StoredMapsAreTheProduct
  BothFormatsAgree
  HomologyByKuenneth
  LogicalsAreABasis
  ParametersAreStored
