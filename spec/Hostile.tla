------------------------------- MODULE Hostile -------------------------------
(* Input that means harm: every kind of record, with values at and beyond the limits of what its
   group codes are meant for, alone and in combination.  What the reader may do with any of it is
   small: end, with a drawing or with an error.  A drawing it gives can be saved.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, FiniteSetsExt, SequencesExt
CONSTANTS OutFile, Wide      \* Wide: all pairs of group codes, not only those a record is known to use

E == INSTANCE RecEntities
O == INSTANCE RecObjects
T == INSTANCE RecTables
H == INSTANCE RecHeader
N == INSTANCE Numbers WITH Deep <- FALSE, item <- 0, wire <- 0, back <- 0, phase <- 0

VARIABLES place, code, res
vars == <<place, code, res>>

Codes(k) == {k.rd[j][1] : j \in 1..Len(k.rd)}
Extra(sec, t, codes) == [sec |-> sec, t |-> t, own |-> codes]
Of(sec, q) == [k \in 1..Len(q) |-> Extra(sec, q[k].tstr, Codes(q[k]))]
(* readers written by hand, and places that are not in the catalogue *)
Others == <<
    Extra("OBJECTS", "DATATABLE", {1, 2, 3, 10, 11, 20, 21, 30, 31, 40, 70, 71, 90, 91, 92, 93, 330, 331, 340, 350, 360}),
    Extra("OBJECTS", "SECTIONSETTINGS", {1, 2, 3, 4, 6, 7, 8, 40, 41, 42, 43, 62, 63, 64, 70, 71, 72, 73, 90, 91, 92, 93, 290, 330, 331, 370}),
    Extra("OBJECTS", "TABLESTYLE", {3, 7, 40, 41, 62, 63, 64, 69, 70, 71, 90, 91, 140, 170, 270, 274, 275, 278, 280, 281, 283, 284, 289}),
    Extra("OBJECTS", "LAYOUT", {1, 2, 5, 10, 11, 12, 13, 14, 15, 16, 17, 40, 70, 71, 76, 100, 146, 330, 331, 345, 346}),
    Extra("OBJECTS", "SPATIAL_FILTER", {10, 20, 40, 41, 70, 71, 72, 73, 210, 11}),
    Extra("OBJECTS", "VBA_PROJECT", {90, 310}), Extra("OBJECTS", "MATERIAL", {1, 2, 3, 4, 6, 7, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 70, 71, 72, 73, 74, 75, 76, 77, 90, 91, 92, 273, 274}),
    Extra("OBJECTS", "GEODATA", {10, 11, 13, 14, 15, 90, 91, 93, 96, 97, 98, 99, 301, 302, 303}), Extra("OBJECTS", "XRECORD", {1, 5, 102, 105, 280, 310, 330, 1001}),
    Extra("OBJECTS", "SUNSTUDY", {1, 2, 3, 40, 70, 73, 74, 75, 76, 77, 90, 91, 93, 94, 95, 290, 291, 292, 293, 294}),
    Extra("OBJECTS", "ACDBDICTIONARYWDFLT", {3, 340, 350, 360, 280, 281}), Extra("OBJECTS", "DICTIONARY", {3, 350, 360, 280, 281}),
    Extra("ENTITIES", "DIMENSION", {1, 2, 3, 10, 11, 12, 13, 14, 15, 16, 40, 41, 42, 50, 51, 52, 53, 70, 71, 72, 73, 74, 75, 100, 210, 280}),
    Extra("ENTITIES", "3DLINE", {10, 11}), Extra("ENTITIES", "SECTION", {1, 2, 10, 11, 12, 40, 41, 70, 90, 91, 92, 93}),
    Extra("BLOCKS", "BLOCK", {1, 2, 3, 4, 5, 8, 10, 67, 70, 102, 330, 1001}), Extra("CLASSES", "CLASS", {1, 2, 3, 90, 91, 280, 281}),
    Extra("THUMBNAILIMAGE", "", {90, 310})>>
HVars == {H!HeaderRec.wr[k].var : k \in {j \in 1..Len(H!HeaderRec.wr) : H!HeaderRec.wr[j].t = "field"}}
HCodes(v) == UNION {LET cs == H!HeaderRec.wr[k].cs IN {cs[j][1] : j \in 1..Len(cs)} : k \in {j \in 1..Len(H!HeaderRec.wr) : H!HeaderRec.wr[j].t = "field" /\ H!HeaderRec.wr[j].var = v}}
Header == LET q == SetToSeq(HVars) IN [k \in 1..Len(q) |-> Extra("HEADER", q[k], HCodes(q[k]))]
Places == Header \o Of("ENTITIES", E!Kinds) \o Of("OBJECTS", O!Kinds) \o Of("TABLES", T!Kinds) \o Others

(* values at the limits, by type *)
Values == [str |-> <<"", "x", "{", "}", "{A", "\\U+", "^", "FFFFFFFFFFFFFFFFFFF", "-1", "{&#xE9;}", "&#xE9;", "&#x20AC;{", "0", "AcDbAlignedDimension", "AcDbRotatedDimension", "AcDbDimension">>,
           double |-> <<"0.0", "-0.0", "1e308", "-1e308", "NaN", "inf", "-inf", "1e-310", "-1.0", "9.3e18", "2415020.0", "1e12">>,
           short |-> <<"0", "-1", "1", "2", "32767", "-32768", "3", "70000", "1e9", "NaN">>,
           int |-> <<"0", "-1", "1", "2", "2147483647", "-2147483648", "100000000">>,
           long |-> <<"0", "-1", "9223372036854775807", "-9223372036854775808">>,
           bool |-> <<"0", "1", "2", "-1", "255", "32767">>,
           bytes |-> <<"", "00", "FFFFFFFF", "28000000", "0">>]

Init == place = 0 /\ code = 0 /\ res = ""
PickPlace == place = 0 /\ \E p \in 1..Len(Places) : place' = p /\ UNCHANGED <<code, res>>
PickCode == place # 0 /\ code = 0 /\ \E c \in Places[place].own \cup (IF Places[place].sec = "HEADER" THEN {1, 5, 10, 40, 70, 290, 310} ELSE N!Codes) : code' = c /\ UNCHANGED <<place, res>>
Load == place # 0 /\ code # 0 /\ res = "" /\ res' \in {"drawing", "error"} /\ UNCHANGED <<place, code>>
Save == res = "drawing" /\ res' = "saved" /\ UNCHANGED <<place, code>>
Next == PickPlace \/ PickCode \/ Load \/ Save
Spec == Init /\ [][Next]_vars
Ends == res \in {"", "drawing", "error", "saved"}
Typed == code # 0 /\ code \notin {0, 999} => N!Kind(code) # "none"

Own(p) == SetToSortSeq(p.own, <)
Second(p, c) == IF c \in p.own \/ Wide THEN Own(p) ELSE <<>>
Append1(line) == Serialize(line \o "\n", OutFile, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Emit == IF place = 0 THEN Append1(ToJson([meta |-> Values]))
        ELSE res = "" /\ code # 0 => Append1(ToJson([sec |-> Places[place].sec, t |-> Places[place].t, c |-> code, second |-> Second(Places[place], code)]))
=============================================================================
