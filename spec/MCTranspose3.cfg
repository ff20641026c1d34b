INIT Init
NEXT Next
CONSTANTS
  Ps = {3}
  Ms = {1}
  Programs <- Once
INVARIANTS OwnBlock InStep Drained
CHECK_DEADLOCK TRUE
