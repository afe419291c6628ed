CONSTANTS MaxLen = 6
          NSpeakers = 3
          NStops = 1
          NTagLists = 1
          Spans = 0
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
