CONSTANTS Alphabet = {1, 2, 3}
          MaxLen = 4
INIT Init
NEXT Next
INVARIANTS Exact TrueMatches Enough
CHECK_DEADLOCK FALSE
