SPECIFICATION Spec
CONSTANTS
 MaxEnts = 2
 OutFile = "cases.ndjson"
INVARIANTS Returns Emit
CHECK_DEADLOCK FALSE
