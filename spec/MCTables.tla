---------------------------- MODULE MCTables ----------------------------
EXTENDS RecTables, Records
\* Fields whose value does not survive in the implementation either: two fields of the record
\* share a group code, so no reader can tell them apart (known_findings.jsonl).
MCLossy == {}
ASSUME EmitMeta
===========================================================================
