SPECIFICATION TSpec
CONSTANTS
 W = 8
 BASE = 10
 WORD = 64
 MAXEXP = 16384
VIEW TView
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
