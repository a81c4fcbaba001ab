SPECIFICATION Spec
CONSTANTS
 W = 2
 BASE = 2
 WORD = 64
 MAXEXP = 6
 Keys <- MCKeysVar
 InfixSizes = {3}
 Tab <- MCTab
 BulkSets <- NoBulk
 Zero <- MCZero
 Top <- MCTop
 MaxLive = 4
INVARIANTS NoFalseNegativePoint NoFalseNegativeRange DeleteIsMeaningful WellFormed PointWithinRange RoomForAll LookupsPlain
PROPERTIES OneEntryPerDelete ShrinkKeepsPositives ReloadKeepsAnswers
CHECK_DEADLOCK FALSE
VIEW MCView
CONSTRAINT MCBound
