------------------------------- MODULE Layout --------------------------------
(* The layout of a whole file.  A drawing is built item by item; saving it in a version must give the
   sections in their order, the tables with their heads and ends, blocks with their entities and ends,
   compound entities with their parts and end markers, each record with its handle, extension groups,
   owner, subclass markers and extended data where that version has them, and nothing else.
   Bodies (the fields of a record) are the matter of the record modules and stand here as one wildcard,
   except for the records that only exist as layout: table heads, classes, blocks, end markers.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS MaxN, Vers, OutFile

VARIABLES dr, acts, ver, he, file, phase
vars == <<dr, acts, ver, he, file, phase>>
n == Len(acts)

Tables == <<"APPID", "BLOCK_RECORD", "DIMSTYLE", "LTYPE", "LAYER", "STYLE", "UCS", "VIEW", "VPORT">>
Marker == [APPID |-> "AcDbRegAppTableRecord", BLOCK_RECORD |-> "AcDbBlockTableRecord", DIMSTYLE |-> "AcDbDimStyleTableRecord", LTYPE |-> "AcDbLinetypeTableRecord", LAYER |-> "AcDbLayerTableRecord",
    STYLE |-> "AcDbTextStyleTableRecord", UCS |-> "AcDbUCSTableRecord", VIEW |-> "AcDbViewTableRecord", VPORT |-> "AcDbViewportTableRecord"]
\* kind -> record name, first version, last version, markers after AcDbEntity
EK == [line |-> [r |-> "LINE", v |-> 1, m |-> <<"AcDbLine">>], mtext |-> [r |-> "MTEXT", v |-> 14, m |-> <<"AcDbMText">>], lwpoly |-> [r |-> "LWPOLYLINE", v |-> 15, m |-> <<"AcDbPolyline">>],
    light |-> [r |-> "LIGHT", v |-> 18, m |-> <<"AcDbLight">>], attdef |-> [r |-> "ATTDEF", v |-> 1, m |-> <<"AcDbText", "AcDbAttributeDefinition", "AcDbAttributeDefinition", "AcDbXrecord">>],
    poly |-> [r |-> "POLYLINE", v |-> 1, m |-> <<"AcDb2dPolyline">>], vertex |-> [r |-> "VERTEX", v |-> 1, m |-> <<"AcDbVertex", "AcDb2dVertex">>],
    insert |-> [r |-> "INSERT", v |-> 1, m |-> <<"AcDbBlockReference">>], attrib |-> [r |-> "ATTRIB", v |-> 1, m |-> <<"AcDbText", "AcDbAttribute", "AcDbXrecord">>]]
OK1 == [dict |-> [r |-> "DICTIONARY", v |-> 14, m |-> <<"AcDbDictionary">>], place |-> [r |-> "ACDBPLACEHOLDER", v |-> 16, m |-> <<>>],
    lights |-> [r |-> "LIGHTLIST", v |-> 18, m |-> <<"AcDbLightList">>], varr |-> [r |-> "DICTIONARYVAR", v |-> 14, m |-> <<"DictionaryVariables">>]]
Deco == {"none", "ext", "emptyext", "x", "ext2x2", "own"}
D0 == "none"

(* ---------------------------------------------------------------- building *)
Init == /\ dr = [t |-> [k \in Range(Tables) |-> <<>>], blocks |-> <<>>, ents |-> <<>>, objs |-> <<>>, classes |-> <<>>, thumb |-> 0]
        /\ acts = <<>> /\ ver = 0 /\ he = FALSE /\ file = <<>> /\ phase = "build"
Entry(nm, d) == [nm |-> nm, d |-> d]
Has(d, k, nm) == \E i \in 1..Len(d.t[k]) : d.t[k][i].nm = nm
Bring1(d, k, e) == IF Has(d, k, e.nm) THEN d ELSE [d EXCEPT !.t[k] = Append(@, e)]
\* a layer has a line type
AddTo(d, k, e) == [(IF k = "LAYER" THEN Bring1(d, "LTYPE", Entry("CONTINUOUS", D0)) ELSE d) EXCEPT !.t[k] = Append(@, e)]
Bring(d, k, nm) == IF Has(d, k, nm) THEN d ELSE AddTo(d, k, Entry(nm, D0))
\* what adding an entity brings with it
Refs(d, e) == LET a == Bring(Bring(d, "LAYER", "0"), "LTYPE", "BYLAYER") IN
    IF e.k \in {"mtext", "attdef"} \/ (e.k = "insert" /\ e.parts > 0) THEN Bring(a, "STYLE", "STANDARD") ELSE a
Bld == phase = "build" /\ n < MaxN
Put(d, a) == dr' = d /\ acts' = Append(acts, a) /\ UNCHANGED <<ver, he, file, phase>>
Nm(p) == p \o ToString(n + 1)
\* the first step tries everything, later ones a choice
Ds(q) == IF n = 0 THEN q ELSE q \cap {"none", "ext2x2"}
Ps == IF n = 0 THEN {0, 1, 2} ELSE {0, 2}
Ents == {[k |-> "line", parts |-> 0, d |-> d] : d \in Ds(Deco)} \cup {[k |-> k, parts |-> 0, d |-> d] : k \in {"mtext", "lwpoly", "light", "attdef"}, d \in Ds({"none", "x"})}
    \cup {[k |-> k, parts |-> p, d |-> d] : k \in {"poly", "insert"}, p \in Ps, d \in Ds({"none", "x"})}
AddEntry == Bld /\ \E k \in Range(Tables), d \in Ds({"none", "ext", "x", "ext2x2"}) : Put(AddTo(dr, k, Entry(Nm(k), d)), [a |-> "entry", k |-> k, d |-> d, nm |-> Nm(k)])
AddClass == Bld /\ Put([dr EXCEPT !.classes = Append(@, Nm("CLS"))], [a |-> "class", nm |-> Nm("CLS")])
Block(p, d, ds, q) == [nm |-> Nm("B"), paper |-> p, d |-> d, desc |-> ds, ents |-> q]
WithBlock(b) == LET a == Bring(Bring(dr, "LAYER", "0"), "BLOCK_RECORD", b.nm)  c == IF b.ents = <<>> THEN a ELSE Refs(a, b.ents[1]) IN [c EXCEPT !.blocks = Append(@, b)]
AddBlock == Bld /\ \E p \in BOOLEAN, d \in Ds(Deco), ds \in BOOLEAN : (n = 0 \/ p = ds) /\ LET b == Block(p, d, ds, <<>>) IN Put(WithBlock(b), [a |-> "block", b |-> b])
\* an entity that was in the block when the block was added, and one put into it later: that one has no handle of its own
AddFullBlock == Bld /\ \E e \in Ents : LET b == Block(FALSE, D0, FALSE, <<e @@ [late |-> FALSE]>>) IN Put(WithBlock(b), [a |-> "block", b |-> b])
AddInside == Bld /\ dr.blocks # <<>> /\ \E e \in Ents : Put([dr EXCEPT !.blocks[Len(dr.blocks)].ents = Append(@, e @@ [late |-> TRUE])], [a |-> "inside", e |-> e])
AddEntity == Bld /\ \E e \in Ents : Put([Refs(dr, e) EXCEPT !.ents = Append(@, e @@ [late |-> FALSE])], [a |-> "entity", e |-> e])
AddObject == Bld /\ \E k \in DOMAIN OK1, d \in Ds({"none", "ext2x2", "own", "emptyext"}) : Put([dr EXCEPT !.objs = Append(@, [k |-> k, d |-> d])], [a |-> "object", k |-> k, d |-> d])
SetThumb == Bld /\ dr.thumb = 0 /\ \E w \in {1, 9} : Put([dr EXCEPT !.thumb = w], [a |-> "thumb", w |-> w])

(* ---------------------------------------------------------------- saving *)
P(c, v) == <<c, v>>
AnyV == "*"
Body == P(-1, "")
When(b, q) == IF b THEN q ELSE <<>>
Ext(d, v) == IF v < 15 THEN <<>>
    ELSE IF d = "ext" THEN <<P(102, "{APP"), P(1, "one"), P(102, "}")>>
    ELSE IF d = "ext2x2" THEN <<P(102, "{APP"), P(1, "one"), P(102, "}"), P(102, "{APP2"), P(102, "{IN"), P(70, "7"), P(102, "}"), P(40, "0.5"), P(102, "}")>>
    ELSE <<>>
XD(d, v) == IF v < 16 THEN <<>>
    ELSE IF d = "x" THEN <<P(1001, "APP"), P(1000, "text")>>
    ELSE IF d = "ext2x2" THEN <<P(1001, "APP"), P(1002, "{"), P(1070, "5"), P(1002, "}"), P(1001, "APP2")>>
    ELSE <<>>
Own(d) == When(d = "own", <<P(330, "ABC")>>)
Mark(b, m) == When(b, <<P(100, m)>>)
\* the marker of a vertex is written in every version, like those of the tables
Markers(q, v) == IF v < 14 THEN IF q[1] = "AcDbVertex" THEN <<P(100, q[1]), Body>> ELSE <<Body>> ELSE FlattenSeq([i \in 1..Len(q) |-> When(q[i] # "AcDbXrecord" \/ v >= 18, <<P(100, q[i]), Body>>)])
WH(v, h) == v >= 14 \/ h
\* an entity on its own, without what follows it
Plain(k, d, v, w, hd) == <<P(0, EK[k].r)>> \o When(w, <<P(5, hd)>>) \o Ext(d, v) \o When(w, Own(d)) \o Mark(v >= 14, "AcDbEntity") \o <<Body>> \o Markers(EK[k].m, v) \o XD(d, v)
\* the text attached to an attribute names the attribute as its owner when that has a handle in the file
Attached(v, w, owned) == IF v < 14 THEN <<>> ELSE <<P(0, "MTEXT")>> \o When(w, <<P(5, AnyV)>>) \o When(w /\ owned, <<P(330, "h")>>) \o <<P(100, "AcDbEntity"), Body, P(100, "AcDbMText"), Body>>
SeqEnd(w, in) == <<P(0, "SEQEND")>> \o When(w, <<P(5, IF in THEN AnyV ELSE "h")>>)
Rep(k, q) == FlattenSeq([i \in 1..k |-> q])
Ent(e, v, w) == IF v < EK[e.k].v THEN <<>> ELSE
    LET in == e.late  hd == IF in THEN AnyV ELSE "h" IN
    Plain(e.k, e.d, v, w, hd)
    \o (CASE e.k = "attdef" -> Attached(v, w, ~in)
          [] e.k = "poly" -> Rep(e.parts, Plain("vertex", D0, v, w, hd)) \o SeqEnd(w, in)
          [] e.k = "insert" /\ e.parts > 0 -> Rep(e.parts, Plain("attrib", D0, v, w, hd) \o Attached(v, w, ~in)) \o SeqEnd(w, in)
          [] OTHER -> <<>>)
EntRec(q, v, w) == FlattenSeq([i \in 1..Len(q) |-> Ent(q[i], v, w)])
Sec(nm, q) == <<P(0, "SECTION"), P(2, nm)>> \o q \o <<P(0, "ENDSEC")>>
Rec(k, e, v, w) == <<P(0, k)>> \o When(w, <<P(5, "h")>>) \o Ext(e.d, v) \o <<P(100, "AcDbSymbolTableRecord"), P(100, Marker[k]), P(2, e.nm), Body>> \o XD(e.d, v)
Table(k, q, v, w) == IF q = <<>> \/ (k = "BLOCK_RECORD" /\ v < 14) THEN <<>>
    ELSE <<P(0, "TABLE"), P(2, k), P(100, "AcDbSymbolTable"), P(70, "0")>> \o FlattenSeq([i \in 1..Len(q) |-> Rec(k, q[i], v, w)]) \o <<P(0, "ENDTAB")>>
Cls(nm, v) == IF v >= 15 THEN <<P(0, "CLASS"), P(1, nm), P(2, "Cpp"), P(3, "App"), P(90, "3")>> \o When(v >= 17, <<P(91, "2")>>) \o <<P(280, "0"), P(281, "1")>>
    ELSE <<P(0, nm), P(1, "Cpp"), P(2, "App"), P(90, "4"), P(280, "0"), P(281, "1")>>
Blk(b, v, w) ==
    <<P(0, "BLOCK")>> \o When(v >= 14, <<P(5, "h")>>) \o Ext(b.d, v) \o When(v >= 14, Own(b.d)) \o Mark(v >= 14, "AcDbEntity") \o When(b.paper, <<P(67, "1")>>) \o <<P(8, "0")>> \o Mark(v >= 14, "AcDbBlockBegin")
    \o <<P(2, b.nm), P(70, "0"), P(10, "1.5"), P(20, "2.5"), P(30, "3.5")>> \o When(v >= 13, <<P(3, b.nm)>>) \o <<P(1, "")>> \o When(b.desc, <<P(4, "about")>>)
    \o EntRec(b.ents, v, w)
    \o <<P(0, "ENDBLK")>> \o When(w, <<P(5, "b")>>) \o Ext(b.d, v) \o When(v >= 16, Own(b.d)) \o Mark(v >= 14, "AcDbEntity") \o When(b.paper, <<P(67, "1")>>) \o <<P(8, "0")>> \o Mark(v >= 14, "AcDbBlockEnd") \o XD(b.d, v)
Obj(o, v) == IF v < OK1[o.k].v THEN <<>> ELSE <<P(0, OK1[o.k].r), P(5, "h")>> \o Ext(o.d, v) \o Own(o.d) \o <<Body>> \o Markers(OK1[o.k].m, v) \o XD(o.d, v)
\* a row of a 24 bit image takes a multiple of four bytes
Pix(w) == 40 + 3 * ((3 * w + 3) \div 4) * 4
Thumb(w, v) == When(w > 0 /\ v >= 16, Sec("THUMBNAILIMAGE", <<P(90, ToString(Pix(w)))>> \o Rep((Pix(w) + 127) \div 128, <<P(310, AnyV)>>)))
Write(d, v, h) == LET w == WH(v, h) IN
    Sec("HEADER", <<Body>>)
    \o When(d.classes # <<>>, Sec("CLASSES", FlattenSeq([i \in 1..Len(d.classes) |-> Cls(d.classes[i], v)])))
    \o Sec("TABLES", FlattenSeq([i \in 1..Len(Tables) |-> Table(Tables[i], d.t[Tables[i]], v, w)]))
    \o When(d.blocks # <<>>, Sec("BLOCKS", FlattenSeq([i \in 1..Len(d.blocks) |-> Blk(d.blocks[i], v, w)])))
    \o Sec("ENTITIES", EntRec(d.ents, v, w))
    \o When(v >= 14, Sec("OBJECTS", FlattenSeq([i \in 1..Len(d.objs) |-> Obj(d.objs[i], v)])))
    \o Thumb(d.thumb, v)
    \o <<P(0, "EOF")>>
Save == phase = "build" /\ \E v \in Vers, h \in BOOLEAN : (v >= 14 => ~h) /\ ver' = v /\ he' = h /\ file' = Write(dr, v, h) /\ phase' = "file" /\ UNCHANGED <<dr, acts>>
Next == AddEntry \/ AddClass \/ AddBlock \/ AddFullBlock \/ AddInside \/ AddEntity \/ AddObject \/ SetThumb \/ Save
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- what every file must satisfy *)
\* nesting of the layout: sections, tables and blocks are opened and closed properly, and the file ends once
RECURSIVE Nest(_, _)
Nest(q, st) == IF q = <<>> THEN st = <<"end">>
    ELSE LET h == Head(q)  r == Tail(q)  top == IF st = <<>> THEN "" ELSE st[Len(st)]  up == IF st = <<>> THEN <<>> ELSE SubSeq(st, 1, Len(st) - 1) IN
    IF h[1] # 0 THEN Nest(r, st)
    ELSE CASE h[2] = "EOF" -> st = <<>> /\ Nest(r, <<"end">>)
           [] h[2] = "SECTION" -> st = <<>> /\ Nest(r, <<"sec">>)
           [] h[2] = "ENDSEC" -> st = <<"sec">> /\ Nest(r, <<>>)
           [] h[2] = "TABLE" -> st = <<"sec">> /\ Nest(r, <<"sec", "tab">>)
           [] h[2] = "ENDTAB" -> top = "tab" /\ Nest(r, up)
           [] h[2] = "BLOCK" -> st = <<"sec">> /\ Nest(r, <<"sec", "blk">>)
           [] h[2] = "ENDBLK" -> top = "blk" /\ Nest(r, up)
           [] OTHER -> st # <<>> /\ st # <<"end">> /\ Nest(r, st)
WellNested == phase = "file" => Nest(file, <<>>)
\* before version 13 nothing of the later structure shows, apart from the markers of the tables
OldFiles == phase = "file" /\ ver < 14 => \A i \in 1..Len(file) : ~(file[i][1] \in {102, 1000, 1001, 1002, 1070} \/ (file[i][1] = 0 /\ file[i][2] \in {"MTEXT", "LWPOLYLINE", "LIGHT", "DICTIONARY", "BLOCK_RECORD"}))
NoHandles == phase = "file" /\ ver < 14 /\ ~he => \A i \in 1..Len(file) : file[i][1] # 5
Line1 == ToJson([acts |-> acts, ver |-> ver, he |-> he, file |-> file])
Append1(line) == Serialize(line \o "\n", OutFile, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Emit == phase = "file" => Append1(Line1)
=============================================================================
