INIT Init
NEXT Next
CONSTANTS
  Ps = {1, 2}
  Ms = {1, 2}
  Programs <- Loops
INVARIANTS OwnBlock InStep Drained
CHECK_DEADLOCK TRUE
