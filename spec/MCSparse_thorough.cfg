INIT Init
NEXT Next
CONSTANTS
  Threads = {1, 2, 3}
  M = 2
  Other = 3
  Kinds = {"up", "dw", "full"}
INVARIANTS ProductRight NoRace OnceEach
CHECK_DEADLOCK FALSE
