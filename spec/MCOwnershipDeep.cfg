SPECIFICATION Spec
CONSTANTS
 Bounds = {1, 2, 3, 4, 5}
 MaxBlock = 21
 MaxBuf = 3
CONSTRAINT Bounded
INVARIANTS Sound Owned Distinct
CHECK_DEADLOCK FALSE
