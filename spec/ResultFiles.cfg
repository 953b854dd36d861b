INIT Init
NEXT Next
INVARIANTS
  CallsReturn
  OneRunPerFile
  EarlierFilesAreKept
  FileIsReserved
  FirstFreeIdentifier
  NoStrayFiles
  SettingsLieApart
  SettingsAreTheDistinctValues
  AllCombinations
  ValuesSideBySide
