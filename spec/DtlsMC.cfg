CONSTANTS Eps = {0, 1, 2}
 Places = 2
 Flights = 2
 MaxLen = 9
 Auth = 1
SPECIFICATION Spec
INVARIANTS OnlyProved Bounded OnePending OpenAreProved
CHECK_DEADLOCK FALSE
