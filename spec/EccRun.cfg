INIT Init
NEXT Next
INVARIANTS
  NoException
  StatesOfTheFirstRegister
  EveryShotCounted
  OnlyPossibleOutcomes
  OutcomesAtTheirRates
  SeedReproduces
  ExportsTheEncodedCircuit
