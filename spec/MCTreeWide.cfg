SPECIFICATION Spec
CONSTANTS
 W = 2
 ALPHA = 3
 MAXLEN = 2
 CAP = 2
 MRG = 2
 MAXKEYS = 4
VIEW MCView
INVARIANTS LeavesRight IndexRight JumpsRight IsTheMap
CHECK_DEADLOCK FALSE
