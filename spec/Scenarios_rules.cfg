CONSTANTS NWords = 2
          Alike = TRUE
          MaxRef = 2
          MaxHyp = 2
          Spans = FALSE
          MaxRules = 2
          MaxLeft = 2
          MaxRight = 2
          MaxCand = 0
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
