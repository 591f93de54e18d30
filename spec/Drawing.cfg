SPECIFICATION Spec
CONSTANTS
 Depth = 3
 Starts = {"new", "cleared"}
 Small = TRUE
 Focus = ""
 OutFile = "cases.ndjson"
INVARIANTS UniqueIds Complete LoadComplete NormalForm Stable Emit
CHECK_DEADLOCK FALSE
