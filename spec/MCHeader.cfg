SPECIFICATION Spec
CONSTANTS
 Catalogue <- Kinds
 Lossy <- MCLossy
 NFull = 2
 HotVers = 1
 Seed = 1
 OutFile = "cases.ndjson"
INVARIANTS RoundTrip Undisturbed FixedPoint OnlyDefined Emit
CHECK_DEADLOCK FALSE
