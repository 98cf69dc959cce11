CONSTANTS Ctxs = {1, 2, 3}
          Size <- Size4
          Picks = {0, 1, 2, 10, 11, 12, 20, 23, 30, 34}
          Values = {1, 2, 3, 4, 5}
          Handlers = {1, 2}
          MaxSteps = 60
          Mode = "walk"
INIT Init
NEXT WalkNext
CHECK_DEADLOCK FALSE
