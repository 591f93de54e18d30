SPECIFICATION Spec
CONSTANTS
 MaxStr = 2
 OutFile = "/tmp/dr/cases.ndjson"
INVARIANTS Right OnlyForward Emit
CHECK_DEADLOCK FALSE
