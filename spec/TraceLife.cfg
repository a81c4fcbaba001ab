SPECIFICATION TSpec
VIEW TView
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
