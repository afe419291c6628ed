CONSTANTS NWords = 3
          Alike = TRUE
          MaxRef = 3
          MaxHyp = 3
          Spans = TRUE
          MaxRules = 0
          MaxLeft = 0
          MaxRight = 0
          MaxCand = 2
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
