SPECIFICATION Spec
CONSTANTS N = 5
 V = 2
INVARIANTS Ordered Middle Descends Lowest StaysBracketed ValleyInside Bounded
CHECK_DEADLOCK FALSE
