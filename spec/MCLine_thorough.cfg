SPECIFICATION Spec
CONSTANTS N = 6
 V = 3
INVARIANTS Ordered Middle Descends Lowest StaysBracketed ValleyInside Bounded
CHECK_DEADLOCK FALSE
