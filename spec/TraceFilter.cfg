SPECIFICATION TSpec
CONSTANTS
 W = 8
 BASE = 10
 WORD = 64
 MAXEXP = 16384
 Keys <- None
 InfixSizes <- None
 Tab = 0
 BulkSets <- None
 Zero = 0
 Top = 0
 MaxLive = 0
VIEW TView
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
