SPECIFICATION Spec
CONSTANTS
 What = "x"
 Leaves = {"str", "handle"}
 MaxTok = 6
 MaxDepth = 5
 OutFile = "cases.ndjson"
INVARIANTS RoundTrip Absent Balanced Emit
CHECK_DEADLOCK FALSE
