SPECIFICATION Spec
CONSTANTS
 Focus = {"ENTITIES"}
 MaxTok = 5
 MaxOdd = 2
 OutFile = "cases.ndjson"
INVARIANTS Accepts Sticks Even SkipsUnknown Keeps Emit
CHECK_DEADLOCK FALSE
