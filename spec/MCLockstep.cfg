INIT Init
NEXT Next
CONSTANTS
  Procs = {1, 2, 3}
  Limit = 3
INVARIANTS Matching SameSteps Close
CHECK_DEADLOCK TRUE
