SPECIFICATION Spec
CONSTANTS
 MaxN = 1
 Vers = {1, 10, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21}
 OutFile = "/tmp/dr/cases.ndjson"
INVARIANTS WellNested OldFiles NoHandles Emit
CHECK_DEADLOCK FALSE
