SPECIFICATION Spec
CONSTANTS
 Depth = 3
 OutFile = "/tmp/dr/cases.ndjson"
INVARIANTS Sound Stable Emit
CHECK_DEADLOCK FALSE
