CONSTANTS NWords = 3
          Alike = FALSE
          MaxRef = 2
          MaxHyp = 2
          Spans = FALSE
          MaxRules = 1
          MaxLeft = 2
          MaxRight = 1
          MaxCand = 0
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
