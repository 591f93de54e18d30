SPECIFICATION Spec
CONSTANTS
 Sizes = {1, 2, 3, 4, 5, 17}
 OutFile = "cases.ndjson"
INVARIANTS Gated Placed Whole Same Emit
CHECK_DEADLOCK FALSE
