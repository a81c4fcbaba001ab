SPECIFICATION Spec
CONSTANTS
 W = 2
 BASE = 2
 WORD = 8
 MAXEXP = 4
 CELLS = 4
 SLOTS = 5
 ISIZE = 2
 HALFC = 2
 HALFS = 2
 Loads <- MCSorted
INVARIANTS HoldsList CountsRight Placed LooksRight
CHECK_DEADLOCK FALSE
