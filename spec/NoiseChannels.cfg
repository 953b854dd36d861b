INIT Init
NEXT Next
INVARIANTS
  NoException
  ListedGatesAreNoisy
  ChannelsInTheirOrder
  UnknownErrorRefused
