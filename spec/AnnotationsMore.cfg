CONSTANTS Ctxs = {1, 2}
          Size <- Size2
          Picks = {0, 2, 11}
          Values = {1, 2}
          Handlers = {1}
          MaxSteps = 40
          Mode = "cover"
INIT Init
NEXT Next
VIEW live
INVARIANTS LatestValue ReleasedAtMostOnce OnlyLive OnlyOnFree
CHECK_DEADLOCK FALSE
