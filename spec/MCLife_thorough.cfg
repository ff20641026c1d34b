INIT Init
NEXT Next
CONSTANTS
  Dims = {1, 2, 3}
  Length = 6
INVARIANTS CountsInRange HoldsNoMore GroundStays
PROPERTIES OnlyBuildingAdds ByOne
CONSTRAINT Collect
POSTCONDITION Save
CHECK_DEADLOCK FALSE
