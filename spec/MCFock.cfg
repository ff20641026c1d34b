SPECIFICATION Spec
CONSTANT MaxN = 5
INVARIANTS Encoding Anticommute Hopping Bases Indices Sectors HilbertSize PathSign
CHECK_DEADLOCK FALSE
