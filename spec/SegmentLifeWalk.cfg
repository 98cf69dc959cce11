CONSTANTS NSeg = 3
          MaxRefs = 70000
          Lots = {1, 2, 256, 65536}
          Slots = {1, 2, 3}
          MaxSteps = 50
          Mode = "walk"
INIT Init
NEXT WalkNext
CHECK_DEADLOCK FALSE
