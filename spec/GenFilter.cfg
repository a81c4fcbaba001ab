SPECIFICATION GSpec
CONSTANTS
 W = 8
 BASE = 10
 WORD = 64
 MAXEXP = 16384
 Keys <- GNone
 InfixSizes <- GNone
 Tab = 0
 BulkSets <- GNone
 Zero = 0
 Top = 0
 MaxLive = 0
INVARIANTS
 HereNoFalseNegative
 HereDeletable
 Emit
 WellFormed
 RoomForAll
CHECK_DEADLOCK FALSE
