INIT Init
NEXT Next
CONSTANTS
  Threads = {1, 2}
  M = 2
  Other = 2
  Kinds = {"up", "dw", "full"}
INVARIANTS ProductRight NoRace OnceEach
CHECK_DEADLOCK FALSE
