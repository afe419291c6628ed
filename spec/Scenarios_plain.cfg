CONSTANTS NWords = 3
          Alike = TRUE
          MaxRef = 4
          MaxHyp = 4
          Spans = FALSE
          MaxRules = 0
          MaxLeft = 0
          MaxRight = 0
          MaxCand = 0
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
