INIT Init
NEXT Next
INVARIANTS
  RejectsUnknownModes
  PlotsAllResults
  SavesTheFigure
  ShowsEveryResult
  ShowsOnlyResults
  FindsTheThreshold
  TellsCurvesApart
