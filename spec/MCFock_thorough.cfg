SPECIFICATION Spec
CONSTANT MaxN = 7
INVARIANTS Encoding Anticommute Hopping Bases Indices Sectors HilbertSize PathSign
CHECK_DEADLOCK FALSE
