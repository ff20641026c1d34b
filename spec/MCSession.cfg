INIT Init
NEXT Next
CONSTANTS
  Queries = {"dense", "solve", "gf", "exact", "matrix", "exact-matrix", "off", "occupation", "vectors", "entropy", "print", "sequential", "cotunnelling", "free"}
  Holds = {"gf", "gf2"}
  Length = 3
INVARIANTS VersionTells NeverEmpty AnswersByVersion
PROPERTY OnlyScreeningChanges
CONSTRAINT Collect
POSTCONDITION Save
CHECK_DEADLOCK FALSE
