CONSTANTS MaxLen = 4
          NSpeakers = 1
          NStops = 1
          NTagLists = 3
          Spans = 0
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
