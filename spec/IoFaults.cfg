SPECIFICATION Spec
CONSTANTS
 N = 5
 MaxInt = 2
 Kinds = {"Other", "UnexpectedEof", "WouldBlock", "BrokenPipe"}
 Chunks = {1, 7, 100000}
 Slices = 12
 OutFile = "/tmp/dr/cases.ndjson"
INVARIANTS Complete Reported Pieces Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
