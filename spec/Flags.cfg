SPECIFICATION Spec
CONSTANTS
 MaxOps = 2
 OutFile = "cases.ndjson"
INVARIANTS Sets Only Halved Distinct OneOf Emit
CHECK_DEADLOCK FALSE
