SPECIFICATION Spec
CONSTANTS
 MaxRecs = 3
 OutFile = "cases.ndjson"
INVARIANTS Counted InForce Base1 Joined Emit
CHECK_DEADLOCK FALSE
