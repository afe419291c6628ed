CONSTANTS NWords = 3
          Alike = TRUE
          MaxRef = 5
          MaxHyp = 5
          Spans = FALSE
          MaxRules = 0
          MaxLeft = 0
          MaxRight = 0
          MaxCand = 0
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
