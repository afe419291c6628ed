CONSTANTS MaxLen = 5
          NSpeakers = 1
          NStops = 2
          NTagLists = 1
          Spans = 0
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
