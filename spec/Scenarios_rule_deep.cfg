CONSTANTS NWords = 3
          Alike = TRUE
          MaxRef = 3
          MaxHyp = 3
          Spans = FALSE
          MaxRules = 1
          MaxLeft = 2
          MaxRight = 2
          MaxCand = 0
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
