SPECIFICATION Spec
CONSTANTS
 What = "block"
 Vers = {1, 9, 11, 12, 13, 14, 15, 16, 17, 18, 21}
 Full = FALSE
 OutFile = "cases.ndjson"
INVARIANTS RoundTrip Count OnlyDefined Emit
CHECK_DEADLOCK FALSE
