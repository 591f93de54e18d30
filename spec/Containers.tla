----------------------------- MODULE Containers ------------------------------
(* Objects whose content is not a fixed set of properties: tables of data, dictionaries, records of
   arbitrary pairs, nested settings, lists of styles.  The user builds such an object element by
   element, saves it, and the reader has to find the structure again in a flat sequence of pairs.
   A leaf [t, e, j] stands for a value of type t that no other leaf of the object has; e = 0 stands for the
   zero of the type.                                                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS What, MaxN, OutFile

VARIABLES obj,    \* the object under construction
          n,      \* elements added so far
          ver, wire, phase
vars == <<obj, n, ver, wire, phase>>

L(t, e, j) == [t |-> t, e |-> e, j |-> j]
C(s) == [t |-> "const", s |-> s]
N(k) == [t |-> "n", k |-> k]
P(c, v) == [c |-> c, v |-> v]
Cat(q) == FlattenSeq(q)

(* ---------------------------------------------------------------- layouts of the fixed parts *)
Geo == << <<90, "i32", "section_type">>, <<91, "i32", "geometry_count">>, <<92, "i32", "bit_flags">>, <<63, "color", "color">>, <<8, "str", "layer_name">>,
    <<6, "str", "line_type_name">>, <<40, "f64", "line_type_scale">>, <<1, "str", "plot_style_name">>, <<370, "i16", "line_weight">>, <<70, "i16", "face_transparency">>,
    <<71, "i16", "edge_transparency">>, <<72, "i16", "hatch_pattern_type">>, <<2, "str", "hatch_pattern_name">>, <<41, "f64", "hatch_angle">>, <<42, "f64", "hatch_scale">>,
    <<43, "f64", "hatch_spacing">> >>
Cell == << <<7, "str", "name">>, <<140, "f64", "text_height">>, <<170, "i16", "cell_alignment">>, <<62, "color", "text_color">>, <<63, "color", "cell_fill_color">>,
    <<283, "bool", "is_background_color_enabled">>, <<90, "i32", "cell_data_type">>, <<91, "i32", "cell_unit_type">>, <<274, "i16", "border_lineweight_1">>,
    <<275, "i16", "border_lineweight_2">>, <<276, "i16", "border_lineweight_3">>, <<277, "i16", "border_lineweight_4">>, <<278, "i16", "border_lineweight_5">>,
    <<279, "i16", "border_lineweight_6">>, <<284, "bool", "is_border_1_visible">>, <<285, "bool", "is_border_2_visible">>, <<286, "bool", "is_border_3_visible">>,
    <<287, "bool", "is_border_4_visible">>, <<288, "bool", "is_border_5_visible">>, <<289, "bool", "is_border_6_visible">>, <<64, "color", "border_1_color">>,
    <<65, "color", "border_2_color">>, <<66, "color", "border_3_color">>, <<67, "color", "border_4_color">>, <<68, "color", "border_5_color">>, <<69, "color", "border_6_color">> >>
Names(lay) == {lay[k][3] : k \in 1..Len(lay)}
Ix(lay, f) == CHOOSE k \in 1..Len(lay) : lay[k][3] = f
Rec(lay, e) == [f \in Names(lay) |-> L(lay[Ix(lay, f)][2], e, Ix(lay, f))]
RecPairs(lay, r) == [k \in 1..Len(lay) |-> P(lay[k][1], r[lay[k][3]])]
Code(lay, c) == {k \in 1..Len(lay) : lay[k][1] = c}

(* ---------------------------------------------------------------- building *)
CellKinds == <<"bool", "i32", "f64", "str", "p2", "p3", "handle">>
CellCode(t) == CASE t = "bool" -> 71 [] t = "i32" -> 93 [] t = "f64" -> 40 [] t = "str" -> 3 [] t = "p2" -> 10 [] t = "p3" -> 11 [] OTHER -> 331
\* group codes of every value type, among them the ones that mean something elsewhere in an object
XCodes == << <<1, "str">>, <<3, "str">>, <<5, "handle">>, <<8, "str">>, <<10, "f64">>, <<40, "f64">>, <<62, "i16">>, <<70, "i16">>, <<90, "i32">>, <<100, "str">>, <<102, "open">>, <<102, "close">>, <<105, "handle">>,
    <<140, "f64">>, <<160, "i64">>, <<170, "i16">>, <<210, "f64">>, <<280, "i16">>, <<290, "bool">>, <<310, "bytes">>, <<330, "handle">>, <<340, "handle">>, <<350, "handle">>, <<360, "handle">>, <<370, "i16">>,
    <<380, "i16">>, <<390, "handle">>, <<400, "i16">>, <<410, "str">>, <<420, "i32">>, <<430, "str">>, <<440, "i32">>, <<450, "i32">>, <<460, "f64">>, <<470, "str">>, <<480, "handle">>, <<1000, "str">>, <<1004, "bytes">>, <<1010, "f64">>, <<1040, "f64">>, <<1070, "i16">>, <<1071, "i32">> >>
\* in the order a file lists them
Keys == <<"", " A ", "A", "B", "Za", "a", "a b", "b ">>

Empty == CASE What = "datatable" -> [kinds |-> <<>>, rows |-> <<>>]
    [] What \in {"dict", "dictdef"} -> [hard |-> FALSE, dup |-> 0, m |-> [k \in {} |-> L("handle", 0, 0)], dflt |-> L("handle", 0, 0)]
    [] What = "sections" -> [ty |-> L("i32", 0, 0), q |-> <<>>]
    [] What = "vba" -> [len |-> 0]
    [] What = "proxy" -> [q |-> <<>>, soft |-> <<>>, hard |-> <<>>, sown |-> <<>>, hown |-> <<>>]
    [] OTHER -> [q |-> <<>>]
MinVer == CASE What = "datatable" -> 18 [] What = "dict" -> 14 [] What = "dictdef" -> 16 [] What = "sections" -> 18 [] What = "tablestyle" -> 17 [] What = "xrecord" -> 15 [] What = "lights" -> 18 [] What = "sortents" -> 15 [] What = "proxy" -> 16 [] OTHER -> 16
Init == obj = Empty /\ n = 0 /\ ver = 0 /\ wire = <<>> /\ phase = "build"
Put(o) == obj' = o /\ n' = n + 1 /\ UNCHANGED <<ver, wire, phase>>
Bld == phase = "build" /\ n < MaxN
\* a table of data gets all its columns before its rows; every cell of a column has the column's type
AddColumn == Bld /\ What = "datatable" /\ obj.rows = <<>> /\ Len(obj.kinds) < 3 /\ \E t \in Range(CellKinds) : Put([obj EXCEPT !.kinds = Append(@, t)])
AddRow == Bld /\ What = "datatable" /\ obj.kinds # <<>> /\
    LET r == Len(obj.rows) + 1 IN \E z \in {0, r} : Put([obj EXCEPT !.rows = Append(@, [k \in 1..Len(obj.kinds) |-> L(obj.kinds[k], z, k)])])
AddEntry == Bld /\ What \in {"dict", "dictdef"} /\ \E k \in Range(Keys), z \in {0, n + 1} : (z = 0 => n = 0) /\ Put([obj EXCEPT !.m = (k :> L("handle", z, 1)) @@ @])
SetDict == Bld /\ What \in {"dict", "dictdef"} /\ n < 2 /\ (\/ Put([obj EXCEPT !.hard = ~@, !.dup = 2])
                                                   \/ Put([obj EXCEPT !.dflt = L("handle", n + 1, 2), !.dup = 5]))
AddType == Bld /\ What = "sections" /\ Len(obj.q) < 3 /\ Put([obj EXCEPT !.ty = L("i32", 9, 1), !.q = Append(@,
    [section_type |-> L("i32", n + 1, 31), is_generation_option |-> L("bool", n + 1, 32), source_object_handles |-> <<>>, destination_object_handle |-> L("handle", n + 1, 34),
     destination_file_name |-> L("str", n + 1, 35), geometry_settings |-> <<>>])])
AddSource == Bld /\ What = "sections" /\ \E k \in 1..Len(obj.q) : Put([obj EXCEPT !.q[k].source_object_handles = Append(@, L("handle", n + 1, 33))])
AddGeo == Bld /\ What = "sections" /\ \E k \in 1..Len(obj.q), z \in {0, 1} : Put([obj EXCEPT !.q[k].geometry_settings = Append(@, Rec(Geo, z * (n + 1)))])
AddCell == Bld /\ What = "tablestyle" /\ \E z \in {0, 1} : Put([obj EXCEPT !.q = Append(@, Rec(Cell, z * (n + 1)))])
AddPair == Bld /\ What = "xrecord" /\ \E x \in Range(XCodes) : Put([obj EXCEPT !.q = Append(@, P(x[1], L(x[2], n + 1, 1)))])
AddHandle == Bld /\ What = "lights" /\ Put([obj EXCEPT !.q = Append(@, L("handle", n + 1, 1))])
\* an entity and the handle it is sorted by
AddSort == Bld /\ What = "sortents" /\ Put([obj EXCEPT !.q = Append(@, [a |-> L("handle", n + 1, 1), b |-> L("handle", n + 1, 2)])])
\* a proxy refers to other objects in four ways; the file lists them in any order, the program sees one list
AddId == Bld /\ What = "proxy" /\ \E f \in {"soft", "hard", "sown", "hown"} : Put([obj EXCEPT ![f] = Append(@, n + 1), !.q = Append(@, <<f, n + 1>>)])
IdCode(f) == CASE f = "soft" -> 330 [] f = "hard" -> 340 [] f = "sown" -> 350 [] OTHER -> 360
Grow == Bld /\ What = "vba" /\ \E k \in {1, 126, 127, 128, 129, 256, 300} : Put([obj EXCEPT !.len = k])

(* ---------------------------------------------------------------- saving *)
Comp(v, c) == [t |-> "comp", of |-> v, c |-> c]      \* one coordinate of a point
CellPairs(v) == IF v.t \in {"p2", "p3"} THEN LET c == CellCode(v.t) IN <<P(c, Comp(v, 1)), P(c + 10, Comp(v, 2)), P(c + 20, Comp(v, 3))>> ELSE <<P(CellCode(v.t), v)>>
KeySeq(m) == SelectSeq(Keys, LAMBDA k : k \in DOMAIN m)
Geos(q) == Cat([k \in 1..Len(q) |-> RecPairs(Geo, q[k]) \o <<P(3, C("SectionGeometrySettingsEnd"))>>])
Types(q) == Cat([k \in 1..Len(q) |-> LET s == q[k] IN
    <<P(1, C("SectionTypeSettings")), P(90, s.section_type), P(91, s.is_generation_option), P(92, N(Len(s.source_object_handles)))>>
    \o [i \in 1..Len(s.source_object_handles) |-> P(330, s.source_object_handles[i])]
    \o <<P(331, s.destination_object_handle), P(1, s.destination_file_name), P(93, N(Len(s.geometry_settings))), P(2, C("SectionGeometrySettings"))>>
    \o Geos(s.geometry_settings) \o <<P(3, C("SectionTypeSettingsEnd"))>>])
Pieces(len) == [k \in 1..((len + 127) \div 128) |-> P(310, [t |-> "piece", from |-> (k - 1) * 128, to |-> IF k * 128 < len THEN k * 128 ELSE len])]
Write(o, v) ==
    CASE What = "datatable" ->
        <<P(100, C("AcDbDataTable")), P(70, L("i16", 8, 1)), P(90, N(Len(o.kinds))), P(91, N(Len(o.rows))), P(1, L("str", 8, 2))>>
        \o (IF o.rows = <<>> THEN <<>>   \* columns without a value have no type
            ELSE Cat([k \in 1..Len(o.kinds) |-> <<P(92, N(CellCode(o.kinds[k]))), P(2, L("str", 7, k))>> \o Cat([r \in 1..Len(o.rows) |-> CellPairs(o.rows[r][k])])]))
      [] What = "dict" ->
        <<P(100, C("AcDbDictionary"))>> \o (IF v >= 16 THEN <<P(280, N(IF o.hard THEN 1 ELSE 0)), P(281, N(o.dup))>> ELSE <<>>)
        \o Cat([k \in 1..Len(KeySeq(o.m)) |-> <<P(3, C(KeySeq(o.m)[k])), P(IF o.hard THEN 360 ELSE 350, o.m[KeySeq(o.m)[k]])>>])
      [] What = "dictdef" ->
        <<P(100, C("AcDbDictionary"))>> \o (IF v >= 16 THEN <<P(281, N(o.dup))>> ELSE <<>>) \o <<P(340, o.dflt)>>
        \o Cat([k \in 1..Len(KeySeq(o.m)) |-> <<P(3, C(KeySeq(o.m)[k])), P(350, o.m[KeySeq(o.m)[k]])>>])
      [] What = "sections" -> <<P(100, C("AcDbSectionSettings")), P(90, o.ty), P(91, N(Len(o.q)))>> \o Types(o.q)
      [] What = "tablestyle" ->
        <<P(100, C("AcDbTableStyle"))>> \o (IF v >= 19 THEN <<P(280, N(0))>> ELSE <<>>)
        \o <<P(3, L("str", 8, 2)), P(70, N(0)), P(71, N(0)), P(40, L("f64", 8, 3)), P(41, L("f64", 8, 4)), P(280, N(1)), P(281, N(0))>>
        \o Cat([k \in 1..Len(o.q) |-> RecPairs(Cell, o.q[k])])
      [] What = "xrecord" -> <<P(100, C("AcDbXrecord")), P(280, N(1))>> \o o.q
      [] What = "lights" -> <<P(100, C("AcDbLightList")), P(90, L("i32", 8, 1)), P(90, N(Len(o.q)))>> \o Cat([k \in 1..Len(o.q) |-> <<P(5, o.q[k]), P(1, C(""))>>])
      [] What = "sortents" -> <<P(100, C("AcDbSortentsTable"))>> \o [k \in 1..Len(o.q) |-> P(331, o.q[k].a)] \o [k \in 1..Len(o.q) |-> P(5, o.q[k].b)]
      [] What = "proxy" -> <<P(100, C("AcDbProxyObject")), P(90, N(499)), P(91, N(500)), P(93, N(8)), P(310, L("bytes", 1, 1))>>
        \o [k \in 1..Len(o.q) |-> P(IdCode(o.q[k][1]), L("str", o.q[k][2], 1))] \o <<P(94, N(0))>>
      [] OTHER -> <<P(100, C("AcDbVbaProject")), P(90, N(o.len))>> \o Pieces(o.len)
Versions == {13, 14, 15, 16, 17, 18, 19, 20, 21}
Save == phase = "build" /\ \E v \in Versions : v >= MinVer /\ ver' = v /\ wire' = Write(obj, v) /\ phase' = "file" /\ UNCHANGED <<obj, n>>
Next == AddColumn \/ AddRow \/ AddEntry \/ SetDict \/ AddType \/ AddSource \/ AddGeo \/ AddCell \/ AddPair \/ AddHandle \/ AddSort \/ AddId \/ Grow \/ Save
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- finding the structure again *)
\* group codes that mean nothing in any of these objects
Strange == << <<59, "f64">>, <<99, "i32">>, <<149, "f64">>, <<179, "i16">>, <<239, "f64">>, <<299, "bool">>, <<309, "str">>, <<319, "bytes">>, <<379, "i16">>, <<399, "handle">>, <<439, "str">>, <<459, "i32">>, <<479, "str">>, <<999, "str">> >>
Foreign == {Strange[k][1] : k \in 1..Len(Strange)}
\* a pair at a time, with what the reader has to remember
Ids(o) == LET all == o.soft \o o.hard \o o.sown \o o.hown IN [k \in 1..Len(all) |-> L("str", all[k], 1)]
RECURSIVE RdTable(_, _, _, _, _), RdDict(_, _, _), RdTypes(_, _, _), RdCells(_, _)
\* vals: column -> values read; names; pt: coordinates of the point being read
RdTable(q, names, vals, pt, open) ==
    IF q = <<>> THEN [names |-> names, vals |-> vals]
    ELSE LET h == Head(q)  r == Tail(q)
             add(v) == IF vals = <<>> THEN <<>> ELSE [vals EXCEPT ![Len(vals)] = Append(@, v)] IN
    CASE h.c \in Foreign -> RdTable(r, names, vals, pt, open)
      [] h.c = 92 -> RdTable(r, names, Append(vals, <<>>), <<>>, TRUE)
      [] h.c = 2 -> RdTable(r, Append(names, h.v), vals, <<>>, TRUE)
      [] open /\ h.c \in {10, 11, 20, 21} -> RdTable(r, names, vals, Append(pt, h.v), open)
      [] open /\ h.c \in {30, 31} -> RdTable(r, names, add(h.v.of), <<>>, open)
      [] open -> RdTable(r, names, add(h.v), <<>>, open)
      [] OTHER -> RdTable(r, names, vals, pt, open)
RdDict(q, key, m) == IF q = <<>> THEN m ELSE LET h == Head(q) IN
    CASE h.c = 3 -> RdDict(Tail(q), h.v.s, m) [] h.c \in {350, 360} -> RdDict(Tail(q), key, (key :> h.v) @@ m) [] OTHER -> RdDict(Tail(q), key, m)
\* st: 0 outside, 1 inside a type, 2 where a geometry may begin, 3 inside a geometry
RdTypes(q, st, out) == IF q = <<>> THEN out ELSE LET h == Head(q)  r == Tail(q)  k == Len(out) IN
    CASE st = 0 -> IF h.c = 1 THEN RdTypes(r, 1, Append(out, [section_type |-> 0, is_generation_option |-> 0, source_object_handles |-> <<>>, destination_object_handle |-> 0, destination_file_name |-> 0, geometry_settings |-> <<>>]))
                   ELSE RdTypes(r, 0, out)
      [] st = 1 -> (CASE h.c = 90 -> RdTypes(r, 1, [out EXCEPT ![k].section_type = h.v]) [] h.c = 91 -> RdTypes(r, 1, [out EXCEPT ![k].is_generation_option = h.v])
                      [] h.c = 330 -> RdTypes(r, 1, [out EXCEPT ![k].source_object_handles = Append(@, h.v)]) [] h.c = 331 -> RdTypes(r, 1, [out EXCEPT ![k].destination_object_handle = h.v])
                      [] h.c = 1 -> RdTypes(r, 1, [out EXCEPT ![k].destination_file_name = h.v]) [] h.c = 2 -> RdTypes(r, 2, out) [] h.c = 3 -> RdTypes(r, 0, out) [] OTHER -> RdTypes(r, 1, out))
      [] st = 2 -> IF h.c \in Foreign THEN RdTypes(r, 2, out) ELSE IF h.c = 90 THEN RdTypes(q, 3, [out EXCEPT ![k].geometry_settings = Append(@, Rec(Geo, 99))]) ELSE RdTypes(q, 1, out)
      [] OTHER -> IF h.c = 3 THEN RdTypes(r, 2, out)
                  ELSE IF h.c \in Foreign THEN RdTypes(r, 3, out)
                  ELSE LET f == Geo[CHOOSE x \in Code(Geo, h.c) : TRUE][3]  g == Len(out[k].geometry_settings) IN RdTypes(r, 3, [out EXCEPT ![k].geometry_settings[g][f] = h.v])
RdCells(q, out) == IF q = <<>> THEN out ELSE LET h == Head(q)  r == Tail(q) IN
    IF h.c = 7 THEN RdCells(r, Append(out, [Rec(Cell, 99) EXCEPT !["name"] = h.v]))
    ELSE IF out = <<>> \/ Code(Cell, h.c) = {} THEN RdCells(r, out)
    ELSE RdCells(r, [out EXCEPT ![Len(out)][Cell[CHOOSE x \in Code(Cell, h.c) : TRUE][3]] = h.v])
BackOf(q) ==
    CASE What = "datatable" -> LET x == RdTable(q, <<>>, <<>>, <<>>, FALSE) IN
            obj.rows = <<>> \/ (x.vals = [k \in 1..Len(obj.kinds) |-> [r \in 1..Len(obj.rows) |-> obj.rows[r][k]]] /\ x.names = [k \in 1..Len(obj.kinds) |-> L("str", 7, k)])
      [] What \in {"dict", "dictdef"} -> RdDict(q, "", [k \in {} |-> L("handle", 0, 0)]) = obj.m
      [] What = "sections" -> RdTypes(q, 0, <<>>) = obj.q
      [] What = "tablestyle" -> RdCells(q, <<>>) = obj.q
      [] What = "xrecord" -> SubSeq(q, 3, Len(q)) = obj.q
      [] What = "lights" -> LET s == SelectSeq(q, LAMBDA p : p.c = 5) IN [k \in 1..Len(s) |-> s[k].v] = obj.q
      [] What = "sortents" -> LET a == SelectSeq(q, LAMBDA p : p.c = 331)  b == SelectSeq(q, LAMBDA p : p.c = 5) IN
            Len(a) = Len(b) /\ [k \in 1..Len(a) |-> [a |-> a[k].v, b |-> b[k].v]] = obj.q
      [] What = "proxy" -> LET of(c) == SelectSeq(q, LAMBDA p : p.c = c)  all == of(330) \o of(340) \o of(350) \o of(360) IN
            [k \in 1..Len(all) |-> all[k].v] = Ids(obj)
      [] OTHER -> LET s == SelectSeq(q, LAMBDA p : p.c = 310) IN
            /\ \A k \in 1..Len(s) : s[k].v.to - s[k].v.from \in 1..128 /\ s[k].v.from = (IF k = 1 THEN 0 ELSE s[k - 1].v.to)
            /\ obj.len = (IF s = <<>> THEN 0 ELSE s[Len(s)].v.to)
RoundTrip == phase = "file" => BackOf(wire)
\* A pair that means nothing to the object changes nothing, wherever it stands.
Undisturbed == phase = "file" /\ What # "xrecord" =>
    \A k \in 1..Len(wire) : LET x == Strange[((k + ver + n) % Len(Strange)) + 1] IN BackOf(SubSeq(wire, 1, k) \o <<P(x[1], L(x[2], 3, 7))>> \o SubSeq(wire, k + 1, Len(wire)))

Append1(line) == Serialize(line \o "\n", OutFile, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Pairs(m) == LET s == KeySeq(m) IN [k \in 1..Len(s) |-> [k |-> s[k], v |-> m[s[k]]]]
Shown == IF What \in {"dict", "dictdef"} THEN [hard |-> obj.hard, dup |-> obj.dup, m |-> Pairs(obj.m), dflt |-> obj.dflt] ELSE IF What = "proxy" THEN [ids |-> Ids(obj)] ELSE obj
Emit == phase = "file" => Append1(ToJson([what |-> What, ver |-> ver, obj |-> Shown, wire |-> wire, strange |-> IF What = "xrecord" THEN <<>> ELSE [k \in 1..Len(Strange) |-> P(Strange[k][1], L(Strange[k][2], 3, 7))]]))
=============================================================================
