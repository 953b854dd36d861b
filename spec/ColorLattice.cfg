INIT Init
NEXT Next
INVARIANTS
  Constructs
  NumberOfQubits
  NumberOfFaces
  FacesAndQubitsAgree
  CheckMatrixIsTheFaces
  FaceSizes
  AtMostThreeFacesAtAQubit
  FacesShareEdges
  ThreeCorners
  OneLogicalQubit
  LogicalIsALogical
  DistanceNotLarger
  SyndromesOfErrors
  LogicalErrorsFound
  EqualCodes
  ThreeColourable
  CorrectsUpToHalfTheDistance
