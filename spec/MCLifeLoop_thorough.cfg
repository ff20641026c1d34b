SPECIFICATION Loop
CONSTANTS
  Dims = {1, 2, 3, 4, 5, 6}
  Length = 1
INVARIANTS CountsInRange HoldsNoMore
PROPERTIES Settles NothingMissedForGood
CHECK_DEADLOCK FALSE
