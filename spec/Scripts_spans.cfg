CONSTANTS MaxLen = 4
          NSpeakers = 1
          NStops = 1
          NTagLists = 1
          Spans = 2
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
