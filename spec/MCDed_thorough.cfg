INIT Init
NEXT Next
CONSTANTS
  Impurities = 1
  MaxRounds = 4
  MaxDraws = 6
INVARIANTS SumOfTheAccepted RoundsAreAccepted EndsOnAcceptance NoMoreThanAsked RoundsSufficeForOne AtMostTheRounds
CONSTRAINT Collect
POSTCONDITION Save
CHECK_DEADLOCK FALSE
