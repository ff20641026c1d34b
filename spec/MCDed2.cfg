INIT Init
NEXT Next
CONSTANTS
  Impurities = 2
  MaxRounds = 2
  MaxDraws = 3
INVARIANTS SumOfTheAccepted RoundsAreAccepted EndsOnAcceptance NoMoreThanAsked RoundsSufficeForOne AtMostTheRounds
CONSTRAINT Collect
POSTCONDITION Save
CHECK_DEADLOCK FALSE
