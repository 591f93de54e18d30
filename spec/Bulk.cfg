SPECIFICATION Spec
CONSTANTS
 Big = 200000
 Mid = 30000
 OutFile = "cases.ndjson"
INVARIANTS Proportional Emit
CHECK_DEADLOCK FALSE
