SPECIFICATION Spec
CONSTANTS
 Deep = FALSE
 OutFile = "cases.ndjson"
INVARIANTS BinaryExact TextExact TextNear ChunksFit Emit
CHECK_DEADLOCK FALSE
