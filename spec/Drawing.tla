------------------------------ MODULE Drawing ------------------------------
(* The drawing as a container: its collections, the identities (handles) of what they hold, the
   entries that additions bring in, normalization, and what a save and load does to all of that.

   An identity is an abstract token: items with different tokens must have different nonzero
   handles, an item keeps its handle as long as it keeps its token.  Which number a token is
   bound to is left to the implementation.                                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, Randomization

CONSTANTS Depth,    \* length of the behaviours
          Small,    \* few arguments per action (for exhaustive search), or all of them
          Starts,   \* "new", "cleared", "rich" (several items of every kind)
          Focus,    \* "" or "tables": fill one table, then normalize
          OutFile

VARIABLES st, hist
vars == <<st, hist>>

Colls == <<"app_ids", "block_records", "dim_styles", "layers", "line_types", "styles", "ucss", "views", "view_ports",
           "blocks", "entities", "objects">>
CollSet == {Colls[i] : i \in 1..Len(Colls)}
Tables == {Colls[i] : i \in 1..9}
KindOf == [app_ids |-> "AppId", block_records |-> "BlockRecord", dim_styles |-> "DimStyle", layers |-> "Layer",
           line_types |-> "LineType", styles |-> "Style", ucss |-> "Ucs", views |-> "View", view_ports |-> "ViewPort"]

\* all names that occur, in the order of their bytes
Names == <<"", "*ACTIVE", "*MODEL_SPACE", "*PAPER_SPACE", "0", "A", "ACAD", "ACADANNOTATIVE", "ACAD_MLEADERVER",
           "ACAD_NAV_VCDISPLAY", "ANNOTATIVE", "B", "BYBLOCK", "BYLAYER", "CONTINUOUS", "STANDARD", "a", "c d">>
Rank(n) == CHOOSE i \in 1..Len(Names) : Names[i] = n

(* An item: kind, name (for entities: a label), identity, the layer, line type and style it refers
   to, list of names, parts (vertices or attributes) and end marker, contents (blocks), and one field
   that deviates from its default.                                                               *)
Item(k, n) == [k |-> k, n |-> n, id |-> 0, lay |-> "", lt |-> "", sty |-> "", ns |-> <<>>, parts |-> <<>>, se |-> 0, sub |-> <<>>, d |-> <<>>]

(* ---------------------------------------------------------------- adding *)
Put(s, c, it) == [s EXCEPT !.c[c] = Append(@, [it EXCEPT !.id = s.nxt]), !.nxt = @ + 1]
Has(s, c, n) == \E i \in 1..Len(s.c[c]) : s.c[c][i].n = n
Ens(s, c, n) == IF Has(s, c, n) THEN s ELSE Put(s, c, Item(KindOf[c], n))
PutLayer(s, l) == Put(Ens(s, "line_types", l.lt), "layers", l)
EnsLayer(s, n) == IF Has(s, "layers", n) THEN s ELSE PutLayer(s, [Item("Layer", n) EXCEPT !.lt = "CONTINUOUS"])
HasML(s, n) == \E i \in 1..Len(s.c["objects"]) : s.c["objects"][i].k = "MLineStyle" /\ s.c["objects"][i].n = n

TextKinds == {"Text", "MText", "Attribute", "AttributeDefinition", "ArcAlignedText"}
DimKinds == {"RotatedDimension", "RadialDimension", "DiameterDimension", "AngularThreePointDimension", "OrdinateDimension", "Leader", "Tolerance"}
PartKinds == {"Insert", "Polyline"}

RECURSIVE Fold(_, _, _)
Fold(f(_, _), s, q) == IF q = <<>> THEN s ELSE Fold(f, f(s, Head(q)), Tail(q))

ObjRefs(s, o) ==
    CASE o.k \in {"LayerFilter", "LayerIndex"} -> Fold(EnsLayer, s, o.ns)
      [] o.k = "MLineStyle" -> Ens(Ens(s, "line_types", o.n), "styles", o.n)
      [] o.k = "PlotSettings" -> Ens(s, "views", o.n)
      [] OTHER -> s
PutObj(s, o) == Put(ObjRefs(s, o), "objects", o)
EnsML(s, e) == IF e.k = "MLine" /\ ~HasML(s, e.sty) THEN PutObj(s, Item("MLineStyle", e.sty)) ELSE s
\* the attributes of an insert have styles of their own
PartStyles(e) == [i \in 1..Len(e.parts) |-> IF i = 2 THEN "B" ELSE e.sty]
\* everything an entity refers to, except for multi line styles
EntRefs(s, e) ==
    LET s1 == IF e.k \in DimKinds THEN Ens(s, "dim_styles", e.sty) ELSE s
        s2 == Ens(EnsLayer(s1, e.lay), "line_types", e.lt)
    IN IF e.k \in TextKinds THEN Ens(s2, "styles", e.sty)
       ELSE IF e.k = "Insert" THEN Fold(LAMBDA y, n : Ens(y, "styles", n), s2, PartStyles(e)) ELSE s2
\* fresh identities for an entity and its parts
NewIds(e, n) == [e EXCEPT !.id = n,
                          !.parts = [i \in 1..Len(@) |-> [@[i] EXCEPT !.id = n + 1 + i]],
                          !.se = IF e.k = "Polyline" \/ (e.k = "Insert" /\ e.parts # <<>>) THEN n + 1 ELSE 0]
Width(e) == 2 + Len(e.parts)
PutEnt(s, e) == LET s1 == EntRefs(EnsML(s, e), e)
                IN [s1 EXCEPT !.c["entities"] = Append(@, NewIds(e, s1.nxt)), !.nxt = @ + Width(e)]
RECURSIVE SubIds(_, _)
SubIds(q, n) == IF q = <<>> THEN <<>> ELSE <<NewIds(Head(q), n)>> \o SubIds(Tail(q), n + Width(Head(q)))
BlockRefs(s, b) == Fold(EntRefs, Ens(EnsLayer(s, b.lay), "block_records", b.n), b.sub)
PutBlock(s, b) == LET s1 == Fold(EnsML, BlockRefs(s, b), b.sub)
                      w == Len(b.sub) * 10
                  IN [s1 EXCEPT !.c["blocks"] = Append(@, [b EXCEPT !.id = s1.nxt, !.sub = SubIds(b.sub, s1.nxt + 1)]), !.nxt = @ + 1 + w]
Add(s, c, it) == CASE c = "layers" -> PutLayer(s, it)
                   [] c = "entities" -> PutEnt(s, it)
                   [] c = "objects" -> PutObj(s, it)
                   [] c = "blocks" -> PutBlock(s, it)
                   [] OTHER -> Put(s, c, it)

(* ---------------------------------------------------------------- normalizing *)
\* what becomes of a value that is not allowed: <<kind, field, value, replacement>>
PosRule(k, f, r) == {<<k, f, "0.0", r>>, <<k, f, "-1.0", r>>}
Rules == {<<"Layer", "color.raw_value", "0", "7">>, <<"Layer", "color.raw_value", "256", "7">>,
          <<"ViewPort", "ucs_icon", "0", "3">>, <<"ViewPort", "ucs_icon", "-1", "3">>,
          <<"ViewPort", "circle_sides", "0", "1000">>, <<"ViewPort", "circle_sides", "-5", "1000">>}
    \cup PosRule("Style", "text_height", "0.0") \cup PosRule("Style", "width_factor", "1.0")
    \cup PosRule("View", "view_height", "1.0") \cup PosRule("View", "view_width", "1.0") \cup PosRule("View", "lens_length", "1.0")
    \cup UNION {PosRule("ViewPort", f, "1.0") : f \in {"snap_spacing.x", "snap_spacing.y", "snap_spacing.z", "grid_spacing.x",
                "grid_spacing.y", "grid_spacing.z", "view_height", "view_port_aspect_ratio"}}
    \cup PosRule("ViewPort", "lens_length", "50.0")
    \cup PosRule("Header", "default_text_height", "0.2") \cup PosRule("Header", "trace_width", "0.05")
    \cup {<<"Header", f, "\"\"", r>> : <<f, r>> \in {<<"text_style", "\"STANDARD\"">>, <<"current_entity_line_type", "\"BYLAYER\"">>,
                <<"dimension_style_name", "\"STANDARD\"">>, <<"file_name", "\".\"">>}}
\* allowed values, kept
Good == {<<"Layer", "color.raw_value", "5">>, <<"Layer", "color.raw_value", "-3">>, <<"Layer", "color.raw_value", "255">>,
         <<"Style", "text_height", "2.5">>, <<"Style", "width_factor", "0.001">>, <<"View", "view_height", "0.5">>, <<"View", "view_width", "3.0">>,
         <<"View", "lens_length", "42.0">>, <<"ViewPort", "snap_spacing.y", "0.25">>, <<"ViewPort", "grid_spacing.z", "4.0">>,
         <<"ViewPort", "view_height", "0.1">>, <<"ViewPort", "lens_length", "1.5">>, <<"ViewPort", "ucs_icon", "1">>, <<"ViewPort", "circle_sides", "1">>,
         <<"Header", "default_text_height", "0.1">>, <<"Header", "trace_width", "9.0">>, <<"Header", "text_style", "\"A\"">>,
         <<"Header", "current_entity_line_type", "\"A\"">>, <<"Header", "dimension_style_name", "\"A\"">>, <<"Header", "file_name", "\"A\"">>}
Devs(k) == {<<r[2], r[3]>> : r \in {x \in Rules : x[1] = k}} \cup {<<g[2], g[3]>> : g \in {x \in Good : x[1] = k}}
FixDev(k, d) == IF d = <<>> THEN d ELSE
                IF \E r \in Rules : r[1] = k /\ r[2] = d[1] /\ r[3] = d[2]
                THEN <<d[1], (CHOOSE r \in Rules : r[1] = k /\ r[2] = d[1] /\ r[3] = d[2])[4]>> ELSE d
Map(f(_), q) == [i \in 1..Len(q) |-> f(q[i])]
FixItem(it) == [it EXCEPT !.d = FixDev(it.k, @), !.lt = IF it.k = "Layer" /\ @ = "" THEN "CONTINUOUS" ELSE @]
FixLay(it) == [it EXCEPT !.lay = IF @ = "" THEN "0" ELSE @]
\* stable sort by name
RECURSIVE Insert(_, _)
Insert(q, x) == IF q = <<>> THEN <<x>> ELSE IF Rank(q[Len(q)].n) <= Rank(x.n) THEN Append(q, x)
                ELSE Append(Insert(SubSeq(q, 1, Len(q) - 1), x), q[Len(q)])
Sorted(q) == Fold(Insert, <<>>, q)
UcsFields == <<"ucs_definition_name", "ucs_name", "ortho_ucs_reference", "paperspace_ucs_definition_name", "paperspace_ucs_name", "paperspace_ortho_ucs_reference">>
Norm(s0) ==
    LET s1 == [s0 EXCEPT !.hdr.current_layer = IF @ = "" THEN "0" ELSE @, !.hd = FixDev("Header", @),
                         !.c["blocks"] = Map(FixLay, @), !.c["entities"] = Map(FixLay, @)]
        s2 == Fold(LAMBDA s, n : Ens(s, "app_ids", n), s1, <<"ACAD", "ACADANNOTATIVE", "ACAD_NAV_VCDISPLAY", "ACAD_MLEADERVER">>)
        s3 == Fold(LAMBDA s, n : Ens(s, "block_records", n), s2, <<"*MODEL_SPACE", "*PAPER_SPACE">>)
        s4 == EnsLayer(s3, s3.hdr.current_layer)
        s5 == [s4 EXCEPT !.c["layers"] = Map(FixItem, @), !.c["styles"] = Map(FixItem, @),
                         !.c["view_ports"] = Map(FixItem, @), !.c["views"] = Map(FixItem, @)]
        s6 == Fold(LAMBDA s, n : Ens(s, "dim_styles", n), s5, <<"STANDARD", "ANNOTATIVE">>)
        s7 == EnsLayer(s6, "0")
        s8 == Fold(LAMBDA s, n : Ens(s, "line_types", n), s7, <<"BYLAYER", "BYBLOCK", "CONTINUOUS">>)
        s9 == Fold(LAMBDA s, n : Ens(s, "styles", n), s8, <<"STANDARD", "ANNOTATIVE">>)
        s10 == Ens(s9, "view_ports", "*ACTIVE")
        us == SelectSeq([i \in 1..6 |-> s10.hdr[UcsFields[i]]], LAMBDA n : n # "")
        s11 == Fold(LAMBDA s, n : Ens(s, "ucss", n), s10, us)
    IN [s11 EXCEPT !.c = [c \in CollSet |-> IF c \in Tables THEN Sorted(@[c]) ELSE @[c]]]

(* ---------------------------------------------------------------- empty and new drawings *)
EmptyColls == [c \in CollSet |-> <<>>]
Blank == [c |-> EmptyColls, th |-> "", cls |-> <<>>, nxt |-> 1, base |-> 0, ver |-> 13, he |-> TRUE, hd |-> <<>>, held |-> <<>>,
          hdr |-> [f \in {"current_layer"} \cup {UcsFields[i] : i \in 1..6} |-> IF f = "current_layer" THEN "0" ELSE ""]]
New == Norm(Blank)
Clear(s) == [s EXCEPT !.c = EmptyColls, !.th = "", !.cls = <<>>]

(* ---------------------------------------------------------------- saving and loading *)
R10 == 11
R12 == 13
R13 == 14
R14 == 15
R2000 == 16
R2004 == 17
R2007 == 18
R2018 == 21
SaveVers == {R10, R12, R13, R14, R2000, R2007, R2018}
Carried(it, v) ==
    CASE it.k \in {"MText", "Leader", "Tolerance", "MLine", "MLineStyle"} -> v >= R13
      [] it.k = "ArcAlignedText" -> v = R2000
      [] it.k = "LayerFilter" -> v >= R2004
      [] it.k = "LayerIndex" -> v >= R14
      [] it.k \in {"PlotSettings", "PlaceHolder"} -> v >= R2000
      [] OTHER -> TRUE
\* the references a version can carry
Thin(e, v) == IF e.k \in DimKinds /\ v < R12 THEN [e EXCEPT !.sty = "STANDARD"] ELSE e
HdrMin == [current_layer |-> 1, ucs_definition_name |-> R2000, ucs_name |-> 1, ortho_ucs_reference |-> R2000,
           paperspace_ucs_definition_name |-> R2000, paperspace_ucs_name |-> 12, paperspace_ortho_ucs_reference |-> R2000]
\* identities that are not in the file are given out anew
Keep(id, s, withHandles) == IF withHandles THEN id ELSE 0
StripE(e, wh) == IF wh THEN e ELSE [e EXCEPT !.id = 0, !.se = 0, !.parts = [i \in 1..Len(@) |-> [@[i] EXCEPT !.id = 0]]]
FileItems(s, c, v, wh) == LET q == SelectSeq(s.c[c], LAMBDA it : Carried(it, v))
                          IN Map(LAMBDA it : Thin(StripE(it, wh), v), q)
FileBlocks(s, v, wh) == Map(LAMBDA b : [b EXCEPT !.id = IF wh /\ v >= R13 THEN @ ELSE 0,
                               !.sub = Map(LAMBDA e : Thin(StripE(e, wh), v), SelectSeq(@, LAMBDA e : Carried(e, v)))], s.c["blocks"])
\* put an item as it is; identities are settled at the end
Raw(s, c, it) == [s EXCEPT !.c[c] = Append(@, it)]
Ens0(s, c, n) == IF Has(s, c, n) THEN s ELSE Raw(s, c, Item(KindOf[c], n))
\* number what has no identity
RECURSIVE Number(_, _, _, _)
NumE(e, n) == [e EXCEPT !.id = IF @ = 0 THEN n ELSE @,
                        !.parts = [i \in 1..Len(@) |-> IF @[i].id = 0 THEN [@[i] EXCEPT !.id = n + 1 + i] ELSE @[i]],
                        !.se = IF @ = 0 /\ (e.k = "Polyline" \/ (e.k = "Insert" /\ e.parts # <<>>)) THEN n + 1 ELSE @,
                        !.sub = Number(@, n + 10, 20, 1)]
Number(q, n, step, i) == IF i > Len(q) THEN q ELSE Number([q EXCEPT ![i] = NumE(@, n + step * i)], n, step, i + 1)
NumAll(s) == [s EXCEPT !.c = [c \in CollSet |-> Number(s.c[c], s.nxt + 10000 * (CHOOSE i \in 1..12 : Colls[i] = c), 100, 1)],
                       !.nxt = @ + 200000]
(* how: "" as it was saved, "lowseed" or "seedless" with a next handle that is taken or missing,
   "bare" without the handles of the entities, "notables", "noobjects" without those sections    *)
SaveLoad(s, v, how) ==
    LET wh == v >= R13 \/ s.he
        \* Put would number the entries that are brought in; give those identity 0 first
        L0 == [Blank EXCEPT !.ver = v, !.th = IF v >= R2000 THEN s.th ELSE "", !.cls = s.cls, !.nxt = s.nxt, !.he = IF v >= R13 THEN TRUE ELSE s.he,
                            !.hdr = [f \in DOMAIN s.hdr |-> IF v >= HdrMin[f] THEN s.hdr[f] ELSE Blank.hdr[f]]]
        Tab(c) == IF how = "notables" THEN <<>> ELSE FileItems(s, c, v, wh)
        T(c, x) == Fold(LAMBDA y, it : Raw(y, c, it), x, Tab(c))
        t1 == T("dim_styles", IF v >= R13 THEN T("block_records", T("app_ids", L0)) ELSE T("app_ids", L0))
        t2 == T("line_types", t1)
        t3 == Fold(LAMBDA y, l : Raw(Ens(y, "line_types", l.lt), "layers", l), t2, Tab("layers"))
        t4 == T("view_ports", T("views", T("ucss", T("styles", t3))))
        t5 == Fold(LAMBDA y, b : Raw(BlockRefs(y, b), "blocks", b), t4, FileBlocks(s, v, wh))
        t6 == Fold(LAMBDA y, e : Raw(EntRefs(y, e), "entities", e), t5, FileItems(s, "entities", v, wh /\ how # "bare"))
        t7 == IF v >= R13 /\ how # "noobjects" THEN Fold(LAMBDA y, o : Raw(ObjRefs(y, o), "objects", o), t6, FileItems(s, "objects", v, wh)) ELSE t6
        t8 == Fold(EnsML, t7, FlattenSeq(Map(LAMBDA b : b.sub, t7.c["blocks"])) \o t7.c["entities"])
    IN NumAll(t8)
NoDevs(s) == s.hd = <<>> /\ \A c \in CollSet : \A i \in 1..Len(s.c[c]) : s.c[c][i].d = <<>>

(* ---------------------------------------------------------------- behaviours *)
LayerNames == IF Small THEN {"A"} ELSE {"0", "A", "a", ""}
LtNames == IF Small THEN {"B"} ELSE {"BYLAYER", "B", "c d", ""}
StyNames == IF Small THEN {"c d"} ELSE {"STANDARD", "A", "c d"}
TableNames == IF Small THEN {"A"} ELSE {"A", "a", "B", "0", "STANDARD"}
EntKinds == TextKinds \cup DimKinds \cup PartKinds \cup {"Line", "MLine"}
Label == LET m == Len(hist) * 7 + st.nxt IN ToString(1 + m - 200 * (m \div 200))
PartsOf(n) == [i \in 1..n |-> [id |-> 0, n |-> ToString(i)]]
\* entities that do not refer to a style carry its default
StyOf(k, y) == IF k \in TextKinds \cup DimKinds \cup {"MLine"} \cup {"Insert"} THEN y ELSE ""
EntTemplates ==
    {[Item(k, Label) EXCEPT !.lay = l, !.lt = t, !.sty = StyOf(k, y), !.parts = PartsOf(p)] :
        k \in EntKinds, l \in LayerNames, t \in LtNames, y \in StyNames, p \in {0}}
    \cup {[Item(k, Label) EXCEPT !.lay = l, !.lt = t, !.sty = StyOf(k, y), !.parts = PartsOf(p)] :
        k \in PartKinds, l \in LayerNames, t \in LtNames, y \in StyNames, p \in IF Small THEN {2} ELSE {1, 2, 3}}
ObjTemplates ==
    {[Item(k, "") EXCEPT !.ns = q] : k \in {"LayerFilter", "LayerIndex"}, q \in {<<"A">>, <<"B", "a">>, <<"A", "c d", "B", "a">>, <<>>}}
    \cup {Item("MLineStyle", n) : n \in StyNames} \cup {Item("PlotSettings", n) : n \in StyNames} \cup {Item("PlaceHolder", "")}
SubTemplates == IF Small THEN {<<>>} \cup {<<e>> : e \in EntTemplates}
                ELSE {<<>>} \cup {<<e>> : e \in RandomSubset(3, EntTemplates)} \cup {<<e, f>> : e \in RandomSubset(2, EntTemplates), f \in RandomSubset(2, EntTemplates)}
\* some of the choices (long random behaviours), or all of them
Some(S) == IF Small THEN S ELSE RandomSubset(3, S)
BlockTemplates == {[Item("Block", n) EXCEPT !.lay = l, !.sub = q] : n \in IF Small THEN {"A"} ELSE {"A", "c d"}, l \in LayerNames, q \in SubTemplates}
TableTemplates(c) ==
    IF c = "layers" THEN {[Item("Layer", n) EXCEPT !.lt = t] : n \in TableNames, t \in LtNames}
                         \cup {[Item("Layer", "B") EXCEPT !.lt = "CONTINUOUS", !.d = d] : d \in Devs("Layer")}
    ELSE {Item(KindOf[c], n) : n \in TableNames} \cup {[Item(KindOf[c], "B") EXCEPT !.d = d] : d \in Devs(KindOf[c])}

\* a step: action, its arguments, and the drawing afterwards
Tup(it) == <<it.k, it.n, it.id, it.lay, it.lt, it.sty, it.ns, it.parts, it.se, it.sub, it.d>>
TupB(it) == Tup([it EXCEPT !.sub = Map(Tup, @)])
Obs(s) == [c |-> [i \in 1..12 |-> Map(TupB, s.c[Colls[i]])], hdr |-> s.hdr, hd |-> s.hd, ver |-> s.ver, th |-> s.th, cls |-> s.cls]
Step(a, s) == /\ st' = [s EXCEPT !.held = a.held]
              /\ hist' = Append(hist, [a |-> a.a, c |-> a.c, i |-> a.i, it |-> TupB(a.it), x |-> a.x, o |-> Obs(s)])
Act(a, c, i, it, x) == [a |-> a, c |-> c, i |-> i, it |-> it, x |-> x, held |-> st.held]
NoItem == Item("", "")
On == Focus = "" /\ Len(hist) - st.base < Depth

AddT == On /\ \E c \in Tables : \E it \in Some(TableTemplates(c)) : Step(Act("add", c, 0, it, ""), Add(st, c, it))
\* the parts were made for this drawing, for another one, or before this drawing was cleared
AddE == On /\ \E it \in Some(EntTemplates) : \E x \in IF it.parts = <<>> THEN {"here"} ELSE {"here", "other"} :
            Step(Act("add", "entities", 0, it, x), Add(st, "entities", it))
AddO == On /\ \E it \in ObjTemplates : Step(Act("add", "objects", 0, it, ""), Add(st, "objects", it))
AddB == On /\ \E it \in Some(BlockTemplates) : Step(Act("add", "blocks", 0, it, "other"), Add(st, "blocks", it))
\* add a copy of an item of this drawing
Copy == On /\ \E c \in CollSet : \E i \in 1..Len(st.c[c]) : Step(Act("copy", c, i, NoItem, ""), Add(st, c, st.c[c][i]))
RemoveItem == On /\ \E c \in CollSet : \E i \in 1..Len(st.c[c]) :
            Step([Act("remove", c, i, NoItem, "") EXCEPT !.held = <<c, st.c[c][i]>>], [st EXCEPT !.c[c] = RemoveAt(@, i)])
RemoveOut == On /\ \E c \in CollSet : \E k \in {1, 7} : Step(Act("remove", c, Len(st.c[c]) + k, NoItem, ""), st)
\* put back what was removed last
Readd == On /\ st.held # <<>> /\ Step(Act("readd", st.held[1], 0, NoItem, ""), Add(st, st.held[1], st.held[2]))
Rename == On /\ \E c \in Tables \cup {"blocks"} : \E i \in 1..Len(st.c[c]) : \E n \in {"A", "c d"} :
            Step(Act("rename", c, i, NoItem, n), [st EXCEPT !.c[c][i].n = n])
Relayer == On /\ \E i \in 1..Len(st.c["entities"]) : \E n \in {"c d", ""} :
            Step(Act("relayer", "entities", i, NoItem, n), [st EXCEPT !.c["entities"][i].lay = n])
Header == On /\ \E f \in DOMAIN st.hdr : \E n \in {"A", "B", ""} : Step(Act("header", f, 0, NoItem, n), [st EXCEPT !.hdr[f] = n])
HeaderDev == On /\ \E d \in Devs("Header") : st.hd = <<>> /\ Step([Act("headerdev", d[1], 0, NoItem, d[2]) EXCEPT !.a = "headerdev"], [st EXCEPT !.hd = d])
ClearAll == On /\ Step(Act("clear", "", 0, NoItem, ""), Clear(st))
Normalize == On /\ Step(Act("normalize", "", 0, NoItem, ""), Norm(st))
Save == On /\ NoDevs(st) /\ \E v \in SaveVers : \E x \in {"text", "binary"} : \E he \in {TRUE, FALSE} :
            (he \/ v < R13) /\ Step(Act("save", "", v, NoItem, IF he THEN x ELSE x \o "-nohandles"), [SaveLoad([st EXCEPT !.he = he], v, "") EXCEPT !.base = st.base])
\* what other programs write may lack some of this
Import == On /\ NoDevs(st) /\ \E v \in {R12, R13, R2007} : \E x \in {"lowseed", "seedless", "bare", "notables", "noobjects"} :
            Step(Act("save", "", v, NoItem, "text-" \o x), [SaveLoad([st EXCEPT !.he = TRUE], v, x) EXCEPT !.base = st.base])
Preview == On /\ \E x \in {"", "gray", "rgb"} : x # st.th /\ Step(Act("preview", "", 0, NoItem, x), [st EXCEPT !.th = x])
AddClass == On /\ \E x \in {"A", "c d"} : Step(Act("class", "", 0, NoItem, x), [st EXCEPT !.cls = Append(@, x)])

\* a drawing with several items of every kind
RichItems ==
    LET ents == <<"Line", "Text", "MText", "Insert", "Polyline", "Leader", "Tolerance", "MLine", "RadialDimension", "AttributeDefinition", "Insert", "Polyline">>
        E(k, i) == [Item(k, ToString(i)) EXCEPT !.lay = IF i = 3 THEN "a" ELSE "0", !.lt = IF i = 4 THEN "c d" ELSE "BYLAYER", !.parts = PartsOf(IF k = "Polyline" THEN 3 ELSE IF k = "Insert" THEN 2 ELSE 0),
                                                !.sty = StyOf(k, IF i > 8 THEN "A" ELSE "STANDARD")]
    IN FlattenSeq([i \in 1..9 |-> LET c == Colls[i] IN Map(LAMBDA n : <<c, IF c = "layers" THEN [Item("Layer", n) EXCEPT !.lt = "BYLAYER"] ELSE Item(KindOf[c], n)>>, <<"a", "B", "c d", "">>)])
       \o [i \in 1..Len(ents) |-> <<"entities", E(ents[i], i)>>]
       \o <<<<"objects", Item("MLineStyle", "B")>>, <<"objects", [Item("LayerFilter", "") EXCEPT !.ns = <<"B", "a">>]>>, <<"objects", Item("PlotSettings", "B")>>,
             <<"objects", Item("MLineStyle", "c d")>>, <<"objects", Item("PlaceHolder", "")>>>>
       \o <<<<"blocks", [Item("Block", "B") EXCEPT !.lay = "0"]>>, <<"blocks", [Item("Block", "c d") EXCEPT !.lay = "a", !.sub = <<E("Insert", 50), E("MLine", 51), E("Line", 52)>>]>>,
             <<"blocks", [Item("Block", "a") EXCEPT !.lay = "B", !.sub = <<E("Polyline", 53)>>]>>>>
Built == LET q == RichItems s == Fold(LAMBDA y, p : Add(y, p[1], p[2]), Clear(New), q) IN [s EXCEPT !.base = Len(q) + 2, !.th = "gray", !.cls = <<"A">>]
Entry(a, c, it, x, o) == [a |-> a, c |-> c, i |-> 0, it |-> TupB(it), x |-> x, o |-> o]
Init == \E b \in Starts :
          IF b = "rich"
          THEN /\ st = Built
               /\ hist = <<Entry("cleared", "", NoItem, "", [c |-> 0])>> \o Map(LAMBDA p : Entry("add", p[1], p[2], "other", [c |-> 0]), RichItems)
                          \o <<Entry("preview", "", NoItem, "gray", [c |-> 0]), Entry("class", "", NoItem, "A", Obs(Built))>>
          ELSE LET s == IF b = "new" THEN New ELSE Clear(New) IN st = s /\ hist = <<Entry(b, "", NoItem, "", Obs(s))>>
\* one table gets several entries, then the drawing is normalized
FillT == Focus = "tables" /\ Len(hist) < Depth - 1 /\ \E c \in Tables : (IF Len(hist) = 1 THEN TRUE ELSE hist[2].c = c) /\
            \E n \in {"a", "B", "A", "c d", "STANDARD"} : LET it == IF c = "layers" THEN [Item("Layer", n) EXCEPT !.lt = "B"] ELSE Item(KindOf[c], n)
                                                       IN Step(Act("add", c, 0, it, ""), Add(st, c, it))
NormT == Focus = "tables" /\ Len(hist) = Depth - 1 /\ Step(Act("normalize", "", 0, NoItem, ""), Norm(st))
Next == FillT \/ NormT \/ AddT \/ AddE \/ AddE \/ AddO \/ AddB \/ Copy \/ RemoveItem \/ RemoveOut \/ Readd \/ Rename \/ Relayer \/ Header \/ HeaderDev
        \/ ClearAll \/ Normalize \/ Save \/ Import \/ Preview \/ AddClass
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- properties *)
Ids(e) == (IF e.id = 0 THEN <<>> ELSE <<e.id>>) \o [i \in 1..Len(e.parts) |-> e.parts[i].id] \o (IF e.se = 0 THEN <<>> ELSE <<e.se>>)
AllIds(s) == FlattenSeq([i \in 1..12 |-> FlattenSeq(Map(LAMBDA it : Ids(it) \o FlattenSeq(Map(Ids, it.sub)), s.c[Colls[i]]))])
\* every item and part has an identity of its own
UniqueIds == LET q == AllIds(st) IN Cardinality({q[i] : i \in 1..Len(q)}) = Len(q) /\ \A i \in 1..Len(q) : q[i] # 0
\* after an addition everything the new item refers to is there
LastAct == hist[Len(hist)].a
EntResolved(s, e) == /\ Has(s, "layers", e.lay) /\ Has(s, "line_types", e.lt)
                     /\ e.k \in DimKinds => Has(s, "dim_styles", e.sty)
                     /\ e.k \in TextKinds => Has(s, "styles", e.sty)
                     /\ e.k = "Insert" => \A i \in 1..Len(e.parts) : Has(s, "styles", PartStyles(e)[i])
                     /\ e.k = "MLine" => HasML(s, e.sty)
Complete == LastAct \in {"add", "copy", "readd"} =>
    LET c == hist[Len(hist)].c  it == st.c[c][Len(st.c[c])] IN
    CASE c = "entities" -> EntResolved(st, it)
      [] c = "blocks" -> /\ Has(st, "layers", it.lay) /\ Has(st, "block_records", it.n)
                         /\ \A i \in 1..Len(it.sub) : EntResolved(st, it.sub[i])
      [] c = "layers" -> Has(st, "line_types", it.lt)
      [] OTHER -> TRUE
\* loading leaves no reference of an entity unresolved
LoadComplete == LastAct = "save" =>
    /\ \A i \in 1..Len(st.c["entities"]) : EntResolved(st, st.c["entities"][i])
    /\ \A i \in 1..Len(st.c["blocks"]) : \A j \in 1..Len(st.c["blocks"][i].sub) : EntResolved(st, st.c["blocks"][i].sub[j])
NormalForm == LastAct \in {"normalize", "new"} =>
    /\ \A c \in Tables : \A i \in 1..(Len(st.c[c]) - 1) : Rank(st.c[c][i].n) <= Rank(st.c[c][i + 1].n)
    /\ \A n \in {"0", st.hdr.current_layer} : Has(st, "layers", n)
    /\ \A n \in {"BYLAYER", "BYBLOCK", "CONTINUOUS"} : Has(st, "line_types", n)
    /\ \A n \in {"STANDARD", "ANNOTATIVE"} : Has(st, "styles", n) /\ Has(st, "dim_styles", n)
    /\ Has(st, "view_ports", "*ACTIVE") /\ Has(st, "block_records", "*MODEL_SPACE") /\ Has(st, "app_ids", "ACAD")
    /\ \A i \in 1..6 : st.hdr[UcsFields[i]] # "" => Has(st, "ucss", st.hdr[UcsFields[i]])
    /\ [Norm(st) EXCEPT !.nxt = 0] = [st EXCEPT !.nxt = 0]
\* saving and loading again changes nothing any more
Stable == LastAct = "save" => LET v == st.ver IN
    v >= R13 => SaveLoad(st, v, "").c = st.c

Append1(line) == Serialize(line \o "\n", OutFile, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
\* exhaustive search emits each behaviour once, observed after its last two steps; random search observes every step
Emit == Len(hist) - st.base = Depth => Append1(ToJson([t |-> IF Small THEN [i \in 1..Len(hist) |-> IF i < Len(hist) - 1 THEN [hist[i] EXCEPT !.o = 0] ELSE hist[i]] ELSE hist]))
=============================================================================
