CONSTANTS NWords = 2
          Alike = TRUE
          MaxRef = 2
          MaxHyp = 2
          Spans = TRUE
          MaxRules = 1
          MaxLeft = 2
          MaxRight = 2
          MaxCand = 2
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
