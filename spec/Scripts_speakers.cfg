CONSTANTS MaxLen = 5
          NSpeakers = 2
          NStops = 1
          NTagLists = 1
          Spans = 0
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
