INIT Init
NEXT Next
INVARIANTS
  MergesWithoutError
  OneRecordPerFolder
  TotalsAndTheirRates
  InputsUntouched
