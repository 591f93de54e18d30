-------------------------------- MODULE Bulk ---------------------------------
(* Large input.  A file is a head, a piece repeated n times, and a tail; # in a piece stands for
   the number of the repetition.  Reading takes one step per pair, so the work is in proportion
   to the input, and what comes out is in proportion too: the counts are linear in n.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Big,       \* repetitions, where reading takes one step per pair
          Mid,       \* repetitions, where the implementation looks a name up among all others (known_findings.jsonl)
          OutFile

VARIABLES k, n, i, work, phase
vars == <<k, n, i, work, phase>>

S(name) == << <<0, "SECTION">>, <<2, name>> >>
End == << <<0, "ENDSEC">> >>
Kd(name, slow, head, piece, tail, out) == [name |-> name, slow |-> slow, head |-> head, piece |-> piece, tail |-> tail, out |-> out]
In(sec, name, head, piece, out) == Kd(name, FALSE, S(sec) \o head, piece, End, out)
Slow(sec, name, head, piece, tail, out) == Kd(name, TRUE, S(sec) \o head, piece, tail \o End, out)
(* out: what is counted, and the two numbers a, b of a + b * n *)
Ent == "ENTITIES"
Obj == "OBJECTS"
Table(t) == << <<0, "TABLE">>, <<2, t>> >>
EndTab == << <<0, "ENDTAB">> >>
Kinds == <<
    In(Ent, "lines", <<>>, << <<0, "LINE">>, <<8, "0">>, <<10, "1.0">> >>, << <<"entities", 0, 1>>, <<"layers", 0, 0>> >>),
    Slow(Ent, "layers by entity", <<>>, << <<0, "LINE">>, <<8, "L#">> >>, <<>>, << <<"entities", 0, 1>>, <<"layers", 0, 1>> >>),
    Slow(Ent, "line types by entity", <<>>, << <<0, "LINE">>, <<6, "L#">> >>, <<>>, << <<"entities", 0, 1>>, <<"line_types", 0, 1>> >>),
    In(Ent, "vertices", << <<0, "POLYLINE">> >>, << <<0, "VERTEX">>, <<10, "#">> >>, << <<"entities", 1, 0>>, <<"parts", 0, 1>> >>),
    In(Ent, "attributes", << <<0, "INSERT">>, <<66, "1">> >>, << <<0, "ATTRIB">>, <<1, "a#">> >>, << <<"entities", 1, 0>>, <<"parts", 0, 1>> >>),
    In(Ent, "polylines", <<>>, << <<0, "POLYLINE">>, <<0, "VERTEX">>, <<0, "SEQEND">> >>, << <<"entities", 0, 1>>, <<"parts", 0, 1>> >>),
    In(Ent, "foreign pairs", << <<0, "LINE">> >>, << <<309, "x">> >>, << <<"entities", 1, 0>> >>),
    In(Ent, "foreign entities", <<>>, << <<0, "FOO">>, <<309, "x">> >>, << <<"entities", 0, 0>> >>),
    In("FOO", "foreign section", <<>>, << <<0, "FOO">>, <<309, "x">> >>, << <<"entities", 0, 0>> >>),
    In(Ent, "long text", << <<0, "MTEXT">> >>, << <<3, "xyz">> >>, << <<"entities", 1, 0>> >>),
    In(Ent, "solid", << <<0, "3DSOLID">> >>, << <<1, "xyz">>, <<3, "z">> >>, << <<"entities", 1, 0>> >>),
    In(Ent, "light polyline", << <<0, "LWPOLYLINE">> >>, << <<10, "1.0">>, <<20, "#">> >>, << <<"entities", 1, 0>>, <<"parts", 0, 1>> >>),
    In(Ent, "spline", << <<0, "SPLINE">> >>, << <<10, "1.0">>, <<20, "#">>, <<30, "0.5">>, <<40, "1.0">> >>, << <<"entities", 1, 0>> >>),
    In(Ent, "multi-line", << <<0, "MLINE">> >>, << <<11, "1.0">>, <<21, "#">>, <<31, "0.5">> >>, << <<"entities", 1, 0>> >>),
    In(Ent, "leader", << <<0, "LEADER">> >>, << <<10, "1.0">>, <<20, "#">>, <<30, "0.5">> >>, << <<"entities", 1, 0>> >>),
    In(Ent, "image", << <<0, "IMAGE">> >>, << <<14, "1.0">>, <<24, "#">> >>, << <<"entities", 1, 0>> >>),
    In(Ent, "one extended data", << <<0, "LINE">>, <<1001, "A">> >>, << <<1000, "x#">> >>, << <<"entities", 1, 0>>, <<"xdata", 0, 1>> >>),
    In(Ent, "extended data", << <<0, "LINE">> >>, << <<1001, "A">>, <<1000, "x#">> >>, << <<"entities", 1, 0>>, <<"xdata", 0, 1>> >>),
    In(Ent, "extended lists", << <<0, "LINE">>, <<1001, "A">> >>, << <<1002, "{">>, <<1002, "}">> >>, << <<"entities", 1, 0>> >>),
    In(Ent, "extension groups", << <<0, "LINE">> >>, << <<102, "{x">>, <<1, "x#">>, <<102, "}">> >>, << <<"entities", 1, 0>>, <<"groups", 0, 1>> >>),
    Kd("one extension group", FALSE, S(Ent) \o << <<0, "LINE">>, <<102, "{x">> >>, << <<1, "x#">> >>, << <<102, "}">> >> \o End, << <<"entities", 1, 0>>, <<"groups", 0, 1>> >>),
    Slow("TABLES", "layers", Table("LAYER"), << <<0, "LAYER">>, <<2, "L#">>, <<6, "T#">> >>, EndTab, << <<"layers", 0, 1>>, <<"line_types", 0, 1>> >>),
    In("TABLES", "tables", <<>>, << <<0, "TABLE">>, <<2, "LAYER">>, <<0, "ENDTAB">> >>, << <<"layers", 0, 0>> >>),
    In("TABLES", "foreign tables", <<>>, << <<0, "TABLE">>, <<2, "FOO">>, <<0, "FOO">>, <<0, "ENDTAB">> >>, << <<"layers", 0, 0>> >>),
    Kd("dimension styles", FALSE, S("TABLES") \o Table("DIMSTYLE"), << <<0, "DIMSTYLE">>, <<2, "L#">> >>, EndTab \o End, << <<"dim_styles", 0, 1>> >>),
    Kd("application ids", FALSE, S("TABLES") \o Table("APPID"), << <<0, "APPID">>, <<2, "L#">> >>, EndTab \o End, << <<"app_ids", 0, 1>> >>),
    Kd("dashes", FALSE, S("TABLES") \o Table("LTYPE") \o << <<0, "LTYPE">>, <<2, "x">> >>, << <<49, "1.0">> >>, EndTab \o End, << <<"line_types", 1, 0>> >>),
    Slow("BLOCKS", "blocks", <<>>, << <<0, "BLOCK">>, <<2, "B#">>, <<8, "L#">>, <<0, "ENDBLK">> >>, <<>>, << <<"blocks", 0, 1>>, <<"layers", 0, 1>> >>),
    Slow("BLOCKS", "layers inside a block", << <<0, "BLOCK">>, <<8, "0">> >>, << <<0, "LINE">>, <<8, "L#">> >>, << <<0, "ENDBLK">> >>, << <<"blocks", 1, 0>>, <<"inside", 0, 1>>, <<"layers", 0, 1>> >>),
    Kd("one block", FALSE, S("BLOCKS") \o << <<0, "BLOCK">>, <<8, "0">> >>, << <<0, "LINE">>, <<8, "0">> >>, << <<0, "ENDBLK">> >> \o End, << <<"blocks", 1, 0>>, <<"inside", 0, 1>> >>),
    In("CLASSES", "classes", <<>>, << <<0, "CLASS">>, <<1, "x#">> >>, << <<"classes", 0, 1>> >>),
    In("HEADER", "settings", <<>>, << <<9, "$LUNITS">>, <<70, "1">> >>, << <<"entities", 0, 0>> >>),
    In("HEADER", "foreign settings", <<>>, << <<9, "$FOO#">>, <<70, "1">> >>, << <<"entities", 0, 0>> >>),
    Kd("sections", FALSE, <<>>, S(Ent) \o << <<0, "LINE">> >> \o End, <<>>, << <<"entities", 0, 1>> >>),
    Kd("header sections", FALSE, <<>>, S("HEADER") \o End, <<>>, << <<"entities", 0, 0>> >>),
    In(Obj, "dictionary", << <<0, "DICTIONARY">> >>, << <<3, "x#">>, <<350, "1">> >>, << <<"objects", 1, 0>> >>),
    In(Obj, "record", << <<0, "XRECORD">>, <<100, "AcDbXrecord">>, <<280, "1">> >>, << <<1, "x#">>, <<90, "#">> >>, << <<"objects", 1, 0>> >>),
    In(Obj, "group", << <<0, "GROUP">> >>, << <<340, "1">> >>, << <<"objects", 1, 0>> >>),
    In(Obj, "id buffer", << <<0, "IDBUFFER">> >>, << <<330, "1">> >>, << <<"objects", 1, 0>> >>),
    In(Obj, "project", << <<0, "VBA_PROJECT">> >>, << <<310, "0011">> >>, << <<"objects", 1, 0>> >>),
    Kd("data table", FALSE, S(Obj) \o << <<0, "DATATABLE">>, <<90, "1">>, <<91, "N">>, <<92, "40">>, <<2, "c">> >>, << <<40, "1.5">> >>, End, << <<"objects", 1, 0>> >>),
    In(Obj, "sort table", << <<0, "SORTENTSTABLE">> >>, << <<331, "1">>, <<5, "2">> >>, << <<"objects", 1, 0>> >>),
    In(Obj, "cell styles", << <<0, "TABLESTYLE">> >>, << <<7, "c#">>, <<140, "1.0">> >>, << <<"objects", 1, 0>> >>),
    In(Obj, "style elements", << <<0, "MLINESTYLE">>, <<100, "AcDbMlineStyle">> >>, << <<49, "1.0">>, <<62, "1">>, <<6, "x">> >>, << <<"objects", 1, 0>> >>),
    In(Obj, "filter", << <<0, "SPATIAL_FILTER">> >>, << <<10, "1.0">>, <<20, "#">> >>, << <<"objects", 1, 0>> >>),
    In(Obj, "section types", << <<0, "SECTIONSETTINGS">> >>, << <<1, "SectionTypeSettings">>, <<90, "1">>, <<3, "SectionTypeSettingsEnd">> >>, << <<"objects", 1, 0>> >>),
    In(Obj, "lights", << <<0, "LIGHTLIST">> >>, << <<5, "1">>, <<1, "x">> >>, << <<"objects", 1, 0>> >>),
    In(Obj, "objects", <<>>, << <<0, "GROUP">>, <<300, "x#">> >>, << <<"objects", 0, 1>> >>),
    In(Obj, "foreign objects", <<>>, << <<0, "FOO">>, <<300, "x#">> >>, << <<"objects", 0, 0>> >>),
    \* one long value: & takes a piece of text instead of a pair
    Kd("numbered characters", FALSE, S(Ent) \o << <<0, "TEXT">> >>, << <<1, "&\\U+4E00">> >>, End, << <<"entities", 1, 0>>, <<"text", 0, 1>> >>),
    Kd("backslashes", FALSE, S(Ent) \o << <<0, "TEXT">> >>, << <<1, "&\\">> >>, End, << <<"entities", 1, 0>>, <<"text", 0, 1>> >>),
    Kd("carets", FALSE, S(Ent) \o << <<0, "TEXT">> >>, << <<1, "&^A">> >>, End, << <<"entities", 1, 0>>, <<"text", 0, 1>> >>),
    Kd("letters", FALSE, S(Ent) \o << <<0, "TEXT">> >>, << <<1, "&abcdefgh">> >>, End, << <<"entities", 1, 0>>, <<"text", 0, 8>> >>),
    Kd("long comment", FALSE, S(Ent) \o << <<0, "LINE">> >>, << <<999, "&abcdefgh">> >>, End, << <<"entities", 1, 0>> >>),
    Kd("comments", FALSE, S(Ent) \o << <<0, "LINE">> >>, << <<999, "0">> >>, End, << <<"entities", 1, 0>> >>) >>
Long(d) == d.piece[1][2] # "&" /\ Len(d.piece[1][2]) > 1 /\ SubSeq(d.piece[1][2], 1, 1) = "&"
Pairs(d, m) == Len(d.head) + (IF Long(d) THEN 1 ELSE m * Len(d.piece)) + Len(d.tail)
Sizes(d) == {0, 1, 2, 17, 255, IF d.slow THEN Mid ELSE Big}

Init == k \in 1..Len(Kinds) /\ n \in Sizes(Kinds[k]) /\ i = 0 /\ work = 0 /\ phase = "read"
\* head, then piece after piece, then tail
Read == phase = "read" /\ LET d == Kinds[k] IN
    IF n > 20 THEN i' = n /\ work' = Pairs(d, n) /\ phase' = "done" /\ UNCHANGED <<k, n>>      \* counted, not walked
    ELSE IF i = 0 /\ work = 0 /\ d.head # <<>> THEN work' = Len(d.head) /\ UNCHANGED <<k, n, i, phase>>
    ELSE IF i < n /\ ~Long(d) THEN i' = i + 1 /\ work' = work + Len(d.piece) /\ UNCHANGED <<k, n, phase>>
    ELSE i' = n /\ work' = work + (IF Long(d) THEN 1 ELSE 0) + Len(d.tail) /\ phase' = "done" /\ UNCHANGED <<k, n>>
Next == Read
Spec == Init /\ [][Next]_vars

Count(f) == f[2] + f[3] * n
Proportional == phase = "done" => work = Pairs(Kinds[k], n) /\ \A f \in {Kinds[k].out[j] : j \in 1..Len(Kinds[k].out)} : Count(f) <= 8 * n + 1
Append1(line) == Serialize(line \o "\n", OutFile, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Emit == phase = "done" => LET d == Kinds[k] IN
    Append1(ToJson([name |-> d.name, n |-> n, slow |-> d.slow, long |-> Long(d), head |-> d.head, piece |-> d.piece, tail |-> d.tail,
                    out |-> [j \in 1..Len(d.out) |-> <<d.out[j][1], Count(d.out[j])>>]]))
=============================================================================
