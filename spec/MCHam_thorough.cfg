SPECIFICATION Spec
CONSTANT Sizes = {1,2,3,4}
INVARIANTS Hermitian Shortcut ChargeSector SpinSymmetric
CHECK_DEADLOCK FALSE
