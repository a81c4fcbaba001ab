SPECIFICATION RSpec
CONSTANTS
 W = 2
 BASE = 2
 WORD = 64
 MAXEXP = 6
 Keys <- MCKeysFix3
 InfixSizes = {3}
 Tab <- MCTab
 BulkSets <- NoBulk
 Zero <- MCZero
 Top <- MCTop
 MaxLive = 3
PROPERTY Refines
CHECK_DEADLOCK FALSE
VIEW MCView
CONSTRAINT MCBound
