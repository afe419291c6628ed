CONSTANTS NWords = 6
          Alike = FALSE
          MaxRef = 3
          MaxHyp = 2
          Spans = FALSE
          MaxRules = 0
          MaxLeft = 0
          MaxRight = 0
          MaxCand = 0
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
