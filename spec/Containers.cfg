SPECIFICATION Spec
CONSTANTS
 What = "datatable"
 MaxN = 3
 OutFile = "/tmp/dr/cases.ndjson"
INVARIANTS RoundTrip Undisturbed Emit
CHECK_DEADLOCK FALSE
