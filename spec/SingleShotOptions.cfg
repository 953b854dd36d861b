INIT Init
NEXT Next
INVARIANTS
  NoException
  ContradictoryOptionsRefused
