CONSTANTS NWords = 5
          Alike = FALSE
          MaxRef = 2
          MaxHyp = 2
          Spans = FALSE
          MaxRules = 0
          MaxLeft = 0
          MaxRight = 0
          MaxCand = 0
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
