SPECIFICATION TSpec
CONSTANTS
 W = 8
VIEW TView
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
