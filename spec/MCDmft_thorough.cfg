INIT Init
NEXT Next
CONSTANTS
  MaxIters = {0, 1, 2, 3, 4}
  Length = 5
INVARIANTS AlwaysCausal CountsSteps ConvergedExactly FailedExactly StopsInTime NoSilentOverrun
CONSTRAINT Collect
POSTCONDITION Save
CHECK_DEADLOCK FALSE
