INIT Init
NEXT Next
CONSTANTS
  Procs = {1, 2, 3, 4}
  Limit = 5
INVARIANTS Matching SameSteps Close
CHECK_DEADLOCK TRUE
