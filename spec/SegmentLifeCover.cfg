CONSTANTS NSeg = 3
          MaxRefs = 2
          Lots = {1}
          Slots = {1}
          MaxSteps = 60
          Mode = "cover"
INIT Init
NEXT Next
VIEW live
INVARIANTS LivesByOwners NeverBack CopiesOwnThemselves OnlyOwnersMatter
CHECK_DEADLOCK FALSE
