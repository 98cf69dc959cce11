CONSTANTS Slots = {1, 2, 3}
          Places <- ManyPlaces
          Ords <- ManyOrds
          Colors = {0, 1, 2}
          MaxSteps = 24
          Mode = "walk"
INIT Init
NEXT WalkNext
INVARIANT SaysWhatWasSet
CHECK_DEADLOCK FALSE
