CONSTANTS Slots = {1, 2}
          Places <- FewPlaces
          Ords <- FewOrds
          Colors = {0, 2}
          MaxSteps = 4
          Mode = "cover"
INIT Init
NEXT Next
INVARIANTS SaysWhatWasSet Chained
PROPERTY OnlyOwnSteps
CHECK_DEADLOCK FALSE
