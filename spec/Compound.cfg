SPECIFICATION Spec
CONSTANTS
 MaxRecs = 4
 OutFile = "cases.ndjson"
INVARIANTS NothingLost InOrder OnlyParts SaveKeeps Emit
CHECK_DEADLOCK FALSE
