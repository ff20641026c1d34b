INIT Init
NEXT Next
CONSTANTS
  Impurities = 1
  MaxRounds = 3
  MaxDraws = 5
INVARIANTS SumOfTheAccepted RoundsAreAccepted EndsOnAcceptance NoMoreThanAsked RoundsSufficeForOne AtMostTheRounds
CONSTRAINT Collect
POSTCONDITION Save
CHECK_DEADLOCK FALSE
