SPECIFICATION Spec
CONSTANTS
 MaxLen = 2
 Vers = {13, 17, 18, 21}
 Sweep = FALSE
 OutFile = "cases.ndjson"
INVARIANTS RoundTrip AsciiOnly NoBreaks Emit
CHECK_DEADLOCK FALSE
