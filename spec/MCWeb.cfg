SPECIFICATION MCSpec
CONSTANTS
 c1 = c1
 c2 = c2
 c3 = c3
 Clients <- TwoClients
INVARIANTS TypeOK Gauge TotalRight NothingInvented Complete OnlyAsked Clean
PROPERTIES Forward Answered Returns
CHECK_DEADLOCK FALSE
