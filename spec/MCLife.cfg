INIT Init
NEXT Next
CONSTANTS
  Dims = {1, 2}
  Length = 5
INVARIANTS CountsInRange HoldsNoMore GroundStays
PROPERTIES OnlyBuildingAdds ByOne
CONSTRAINT Collect
POSTCONDITION Save
CHECK_DEADLOCK FALSE
