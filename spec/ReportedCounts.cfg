INIT Init
NEXT Next
INVARIANTS
  NoException
  StatesInOrder
  StatesOfTheFirstRegister
  CountsAddUp
  EveryStateAboveTheThreshold
  NoStateBelowTheThreshold
