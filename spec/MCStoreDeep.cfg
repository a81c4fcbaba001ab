SPECIFICATION Spec
CONSTANTS
 W = 2
 BASE = 2
 WORD = 8
 MAXEXP = 4
 CELLS = 5
 SLOTS = 6
 ISIZE = 2
 HALFC = 2
 HALFS = 2
 Loads <- MCSorted
INVARIANTS HoldsList CountsRight Placed LooksRight
CHECK_DEADLOCK FALSE
