SPECIFICATION Spec
CONSTANTS
 Bounds = {1, 2, 3, 4}
 MaxBlock = 18
 MaxBuf = 3
CONSTRAINT Bounded
INVARIANTS Sound Owned Distinct
CHECK_DEADLOCK FALSE
