------------------------------- MODULE Blocks --------------------------------
(* Blocks and classes: records that are not in the record catalogue because their layout is not a plain
   list of fields.  A block has a head, entities and an end, which repeats some of the head; a class has
   one layout up to version 13 and another one after it.  A drawing gets some of them, is saved, perhaps
   altered as another program would write it, and loaded.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS What,      \* "block" or "class"
          Vers, Full, OutFile

VARIABLES items, pos, ver, how, wire, back, phase
vars == <<items, pos, ver, how, wire, back, phase>>

R12 == 13  R13 == 14  R14 == 15  R2000 == 16  R2004 == 17

(* ---------------------------------------------------------------- the values *)
B0 == [name |-> "", layer |-> "0", flags |-> "0", x |-> "0.0", y |-> "0.0", z |-> "0.0", xref |-> "", desc |-> "", paper |-> FALSE, owner |-> "0", ents |-> 0]
B1 == [name |-> "B one", layer |-> "walls", flags |-> "5", x |-> "1.5", y |-> "-2.5", z |-> "3.25", xref |-> "c:/x/y.dwg", desc |-> "about it", paper |-> TRUE, owner |-> "ABC", ents |-> 2]
BV == [name |-> {"", "B2", "*U7", "B_", "_b", "a b c"}, layer |-> {"0", "L_", "other", "a b"}, flags |-> {"0", "1", "2", "64", "127", "32767", "-1", "-32768"},
    x |-> {"0.0", "1.0", "-1.5", "1e20"}, y |-> {"0.0", "2.0", "-1.5", "1e20"}, z |-> {"0.0", "3.0", "-1.5", "1e-9"}, xref |-> {"", "a", "d_"}, desc |-> {"", "d", "two words"},
    paper |-> BOOLEAN, owner |-> {"0", "1", "FFFFFFF", "A0B0C"}, ents |-> 0..3]
C0 == [name |-> "", cpp |-> "", app |-> "", vn |-> "0", proxy |-> "0", count |-> "0", loaded |-> TRUE, ent |-> FALSE]
C1 == [name |-> "REC", cpp |-> "AcDbRec", app |-> "App|more", vn |-> "4", proxy |-> "1023", count |-> "12", loaded |-> FALSE, ent |-> TRUE]
CV == [name |-> {"", "CLASS", "LINE", "R_", "a b"}, cpp |-> {"", "c", "AcDb_"}, app |-> {"", "x", "a b|c"}, vn |-> {"0", "1", "-1", "2147483647"}, proxy |-> {"0", "1", "32768", "-1", "2147483647", "-2147483647"},
    count |-> {"0", "1", "65536", "2147483647"}, loaded |-> BOOLEAN, ent |-> BOOLEAN]
Zero == IF What = "block" THEN B0 ELSE C0
One == IF What = "block" THEN B1 ELSE C1
Vals == IF What = "block" THEN BV ELSE CV
\* one field at a time, the others as in a plain or in a filled record; with Full: two fields at a time
Some1(b) == UNION {{[b EXCEPT ![f] = v] : v \in Vals[f]} : f \in DOMAIN Vals}
Chosen == LET a == Some1(Zero) \cup Some1(One) IN IF Full THEN a \cup UNION {Some1(b) : b \in a} ELSE a

(* ---------------------------------------------------------------- saving *)
P(c, v) == <<c, v>>
When(b, q) == IF b THEN q ELSE <<>>
Bit(b) == IF b THEN "1" ELSE "0"
\* the entity inside is a line that starts at its number (-1: its fields)
Line(i) == <<P(0, "LINE"), P(-1, ToString(i))>>
BlockHead(b, v) == <<P(0, "BLOCK")>> \o When(v >= R13, <<P(5, "h")>>) \o When(v >= R13 /\ b.owner # "0", <<P(330, b.owner)>>) \o When(v >= R13, <<P(100, "AcDbEntity")>>)
    \o When(b.paper, <<P(67, "1")>>) \o <<P(8, b.layer)>> \o When(v >= R13, <<P(100, "AcDbBlockBegin")>>) \o <<P(2, b.name), P(70, b.flags), P(10, b.x), P(20, b.y), P(30, b.z)>>
    \o When(v >= R12, <<P(3, b.name)>>) \o <<P(1, b.xref)>> \o When(b.desc # "", <<P(4, b.desc)>>)
BlockTail(b, v) == <<P(0, "ENDBLK"), P(5, "h")>> \o When(v >= R2000 /\ b.owner # "0", <<P(330, b.owner)>>) \o When(v >= R13, <<P(100, "AcDbEntity")>>)
    \o When(b.paper, <<P(67, "1")>>) \o <<P(8, b.layer)>> \o When(v >= R13, <<P(100, "AcDbBlockEnd")>>)
WBlock(b, v) == BlockHead(b, v) \o FlattenSeq([i \in 1..b.ents |-> Line(i)]) \o BlockTail(b, v)
WClass(c, v) == (IF v >= R14 THEN <<P(0, "CLASS"), P(1, c.name), P(2, c.cpp), P(3, c.app), P(90, c.proxy)>> \o When(v >= R2004, <<P(91, c.count)>>)
                 ELSE <<P(0, c.name), P(1, c.cpp), P(2, c.app), P(90, c.vn)>>) \o <<P(280, Bit(~c.loaded)), P(281, Bit(c.ent))>>
WOne(x, v) == IF What = "block" THEN WBlock(x, v) ELSE WClass(x, v)
Write(q, v) == FlattenSeq([i \in 1..Len(q) |-> WOne(q[i], v)])

(* ---------------------------------------------------------------- what a version can hold *)
Holds(x, v) == IF What = "block" THEN IF v >= R13 THEN x ELSE [x EXCEPT !.owner = "0"]
    ELSE [x EXCEPT !.vn = IF v >= R14 THEN "0" ELSE x.vn, !.proxy = IF v >= R14 THEN x.proxy ELSE "0", !.count = IF v >= R2004 THEN x.count ELSE "0"]

(* ---------------------------------------------------------------- as other programs write it *)
\* bare: what has its default value left out, and nothing at the end but the marker; upside: the pairs of the head the other way round;
\* extra: group codes nobody knows in between; twice: a value given and corrected later
Ways == {"own", "bare", "upside", "extra", "twice"}
Opens(q) == {i \in 1..Len(q) : q[i][1] = 0}
Segs(q) == LET o == SetToSortSeq(Opens(q), <) IN [k \in 1..Len(o) |-> SubSeq(q, o[k], IF k < Len(o) THEN o[k + 1] - 1 ELSE Len(q))]
Dull(p) == p \in {P(8, "0"), P(70, "0"), P(10, "0.0"), P(20, "0.0"), P(30, "0.0"), P(1, ""), P(2, ""), P(3, ""), P(90, "0"), P(91, "0"), P(280, "0"), P(281, "0")} \/ p[1] \in {100, 3}
Mine(s) == s[1][2] # "LINE" \/ What = "class"
Alter1(s, w) ==
    IF ~Mine(s) THEN s
    ELSE IF w = "bare" THEN IF What = "block" /\ s[1][2] = "ENDBLK" THEN <<s[1]>> ELSE <<s[1]>> \o SelectSeq(Tail(s), LAMBDA p : (What = "class" /\ p[1] = 3 /\ p[2] # "") \/ ~Dull(p))
    ELSE IF w = "upside" THEN <<s[1]>> \o Reverse(Tail(s))
    ELSE IF w = "extra" THEN <<s[1], P(349, "77"), P(61, "5")>> \o FlattenSeq([i \in 1..Len(s) - 1 |-> <<s[i + 1], P(999, "0"), P(148, "2.5"), P(303, "BLOCK")>>])
    ELSE IF w = "twice" THEN <<s[1], P(1, "early"), P(2, "early"), P(280, "1"), P(281, "1"), P(70, "9"), P(10, "7.5")>> \o Tail(s)
    ELSE s
Alter(q, w) == IF w = "own" THEN q ELSE LET t == Segs(q) IN FlattenSeq([k \in 1..Len(t) |-> Alter1(t[k], w)])

(* ---------------------------------------------------------------- loading *)
Set(x, f, v) == [x EXCEPT ![f] = v]
RB(b, p, v) == CASE p[1] = 1 -> Set(b, "xref", p[2]) [] p[1] = 2 -> Set(b, "name", p[2]) [] p[1] = 4 -> Set(b, "desc", p[2]) [] p[1] = 8 -> Set(b, "layer", p[2])
    [] p[1] = 10 -> Set(b, "x", p[2]) [] p[1] = 20 -> Set(b, "y", p[2]) [] p[1] = 30 -> Set(b, "z", p[2]) [] p[1] = 67 -> Set(b, "paper", p[2] # "0") [] p[1] = 70 -> Set(b, "flags", p[2])
    [] p[1] = 330 -> Set(b, "owner", p[2]) [] OTHER -> b
RC(c, p, v) == CASE p[1] = 1 -> Set(c, IF v >= R14 THEN "name" ELSE "cpp", p[2]) [] p[1] = 2 -> Set(c, IF v >= R14 THEN "cpp" ELSE "app", p[2]) [] p[1] = 3 -> IF v >= R14 THEN Set(c, "app", p[2]) ELSE c
    [] p[1] = 90 -> Set(c, IF v >= R14 THEN "proxy" ELSE "vn", p[2]) [] p[1] = 91 -> Set(c, "count", p[2]) [] p[1] = 280 -> Set(c, "loaded", p[2] = "0") [] p[1] = 281 -> Set(c, "ent", p[2] # "0") [] OTHER -> c
RECURSIVE Rd(_, _, _)
\* out: the records so far, the last one may still be open
Rd(q, v, out) ==
    IF q = <<>> THEN out
    ELSE LET p == Head(q) n == Len(out) IN
    Rd(Tail(q), v,
       IF p[1] = 0 /\ What = "class" THEN Append(out, IF v >= R14 THEN C0 ELSE Set(C0, "name", p[2]))
       ELSE IF p[1] = 0 /\ p[2] = "BLOCK" THEN Append(out, B0 @@ [st |-> "head"])
       ELSE IF p[1] = 0 /\ p[2] = "ENDBLK" THEN [out EXCEPT ![n].st = "end"]
       ELSE IF p[1] = 0 THEN [out EXCEPT ![n].st = "in", ![n].ents = @ + 1]
       ELSE IF What = "class" THEN [out EXCEPT ![n] = RC(@, p, v)]
       ELSE IF out[n].st = "head" THEN [out EXCEPT ![n] = RB(@, p, v)] ELSE out)
Bare(x) == [f \in DOMAIN x \ {"st"} |-> x[f]]

(* ---------------------------------------------------------------- behaviour *)
Init == items = <<>> /\ pos = 0 /\ ver = 0 /\ how = "own" /\ wire = <<>> /\ back = <<>> /\ phase = "build"
\* the item of interest stands alone, first, last or in the middle
Build == /\ phase = "build" /\ phase' = "built"
         /\ \E x \in Chosen, k \in (IF Full THEN {0} ELSE 0..3) :
               items' = (CASE k = 0 -> <<x>> [] k = 1 -> <<x, One>> [] k = 2 -> <<One, x>> [] OTHER -> <<Zero, x, One>>) /\ pos' = k
         /\ UNCHANGED <<ver, how, wire, back>>
Save == phase = "built" /\ phase' = "saved" /\ \E v \in Vers : ver' = v /\ wire' = Write(items, v) /\ UNCHANGED <<items, pos, how, back>>
Change == phase = "saved" /\ phase' = "file" /\ \E w \in (IF pos = 3 \/ Full THEN Ways ELSE {"own"}) : how' = w /\ wire' = Alter(wire, w) /\ UNCHANGED <<items, pos, ver, back>>
Load == phase = "file" /\ phase' = "loaded" /\ back' = (LET q == Rd(wire, ver, <<>>) IN [i \in 1..Len(q) |-> Bare(q[i])]) /\ UNCHANGED <<items, pos, ver, how, wire>>
Next == Build \/ Save \/ Change \/ Load
Spec == Init /\ [][Next]_vars

\* upside: of two pairs with one group code the other one is last; twice: what the version leaves out keeps the early value
Exact == how \notin {"twice"}
RoundTrip == phase = "loaded" /\ Exact => back = [i \in 1..Len(items) |-> Holds(items[i], ver)]
Count == phase = "loaded" => Len(back) = Len(items)
OnlyDefined == phase = "saved" => \A i \in 1..Len(wire) : LET c == wire[i][1] IN
    /\ (c = 91 => ver >= R2004) /\ (c \in {330, 100} => ver >= R13) /\ (c = 3 /\ What = "block" => ver >= R12)

Append1(line) == Serialize(line \o "\n", OutFile, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Emit == phase = "loaded" => Append1(ToJson([what |-> What, ver |-> ver, how |-> how, items |-> items, own |-> IF how = "own" THEN wire ELSE <<>>, wire |-> IF how = "own" THEN <<>> ELSE wire, back |-> back]))
=============================================================================
