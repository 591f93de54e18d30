SPECIFICATION Spec
CONSTANTS
 Wide = FALSE
 OutFile = "cases.ndjson"
INVARIANTS Ends Typed Emit
CHECK_DEADLOCK FALSE
