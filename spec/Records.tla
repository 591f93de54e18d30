------------------------------ MODULE Records -------------------------------
(* The life of one record: it is given values, saved as a file of some version, loaded, and
   saved again.  The catalogue (RecEntities, RecObjects, RecTables, RecHeader) says which pairs
   the record consists of; this module says what saving and loading do with them, and what
   must be true of the result.                                                             *)
EXTENDS RecOps, SequencesExt, FiniteSetsExt, Json, IOUtils

CONSTANTS Catalogue,   \* sequence of record kinds
          Lossy,       \* <<kind, field>> pairs whose value is known not to survive (known findings)
          NFull,       \* number of "every field assigned" cases per kind and version
          HotVers,     \* number of versions at which each single value is tried
          Seed,
          OutFile

VARIABLES case, phase, wire, back, wire2
vars == <<case, phase, wire, back, wire2>>

R2007 == 18
NumVersions == 21
K(c) == Catalogue[c.k]

IsPointer(f) == f.priv /\ f.n \notin {} /\ Len(f.n) > 9 /\ SubSeq(f.n, Len(f.n) - 6, Len(f.n)) = "_handle"
Settable(f) == ~f.priv \/ IsPointer(f)

(* ---------------------------------------------------------------- indexes of the catalogue *)
\* the layout items that mention a field
CarrierIx == [n \in 1..Len(Catalogue) |-> LET k == Catalogue[n] IN
    [f \in 1..Len(k.fields) |-> {i \in 1..Len(k.wr) : LET it == k.wr[i] IN
        CASE it.t = "field" -> it.f = f
          [] it.t = "dimtype" -> f \in {it.f, it.a, it.b, it.cc}
          [] it.t = "layercolor" -> f \in {it.f, it.on}
          [] OTHER -> FALSE}]]
\* which catalogue entry takes a pair: the first with its group code
TakerIx == [n \in 1..Len(Catalogue) |-> LET k == Catalogue[n] IN
    [c \in {k.rd[j][1] : j \in 1..Len(k.rd)} |-> Min({j \in 1..Len(k.rd) : k.rd[j][1] = c})]]
Taker(n, c) == IF c \in DOMAIN TakerIx[n] THEN TakerIx[n][c] ELSE 0
\* the same, for the properties all records have in common
CommonIx == [n \in 1..Len(Catalogue) |-> LET k == Catalogue[n] IN
    [c \in {k.rd[j][1] : j \in k.ns+1..Len(k.rd)} |-> Min({j \in k.ns+1..Len(k.rd) : k.rd[j][1] = c})]]
\* the group codes that mean one thing in the common part of an entity and another in its own
Shared == {48, 92, 310, 420, 430}
\* the items that carry the length of a list under a group code which is read into a field
CountIx == [n \in 1..Len(Catalogue) |-> LET k == Catalogue[n] IN
    [f \in 1..Len(k.fields) |-> {i \in 1..Len(k.wr) : /\ k.wr[i].t = "count"
                                                     /\ LET j == Taker(n, k.wr[i].c) IN j # 0 /\ k.rd[j][2] = f}]]
\* field n-tuple: number of components, and the read entries
FieldIx == [n \in 1..Len(Catalogue) |-> LET k == Catalogue[n] IN
    [f \in 1..Len(k.fields) |->
        LET fd == k.fields[f]
            rs == {j \in 1..Len(k.rd) : k.rd[j][2] = f}
        IN [nc |-> IF fd.d # <<>> THEN Len(fd.d[1]) ELSE IF fd.c # <<>> /\ fd.c[1] # <<>> THEN Len(fd.c[1][1]) ELSE 1,
            same |-> Cardinality({k.rd[j][1] : j \in rs}) = 1 /\ Cardinality(rs) > 1,
            settable |-> Settable(fd)]]]

(* ---------------------------------------------------------------- values *)
\* besides the values of the catalogue: limits of the type, ones and zeros, equal components, lists that are long or repeat an element
Pre(x) == SubSeq(x[1], 1, 2)
AsIs(q, p) == \A i \in 1..Len(q) : q[i][1] = q[i][2] /\ Pre(q[i]) = p
One1(v) == <<<< <<v, v>> >>>>
Plain1(q) == [i \in 1..Len(q) |-> One1(q[i])]
Zero1 == <<"f:0.0", "f:0.0">>
Around(el) == << <<[i \in 1..Len(el) |-> el[1]]>>, <<[i \in 1..Len(el) |-> IF i = 1 THEN el[1] ELSE Zero1]>>, <<[i \in 1..Len(el) |-> IF i = Len(el) THEN el[1] ELSE Zero1]>> >>
OneF == <<"f:1.0", "f:1.0">>
Ones(el) == << <<[i \in 1..Len(el) |-> IF i = Len(el) THEN OneF ELSE el[i]]>>, <<[i \in 1..Len(el) |-> IF i = 1 THEN OneF ELSE Zero1]>>, <<[i \in 1..Len(el) |-> IF i = Len(el) THEN OneF ELSE Zero1]>>, <<[i \in 1..Len(el) |-> OneF]>> >>
ZeroI == <<"i:0", "i:0">>
ZeroOf(x) == IF x[1] = x[2] /\ Pre(x) = "f:" THEN Zero1 ELSE IF x[1] = x[2] /\ Pre(x) = "i:" THEN ZeroI ELSE x
Sparse(el) == [i \in 1..Len(el) |-> [j \in 1..Len(el) |-> IF j = i THEN el[j] ELSE ZeroOf(el[j])]]
Level(el) == [i \in 1..Len(el) |-> IF el[i][1] = el[i][2] /\ Pre(el[i]) = "f:" THEN el[1] ELSE el[i]]
Width(fd) == Max({Len(fd.c[i][1][1][1]) : i \in 1..Len(fd.c)})      \* "i:-32760" has 8, "i:-2147483637" has 13
Extra(fd) ==
    IF fd.c = <<>> \/ fd.c[1] = <<>> THEN <<>> ELSE
    LET el == fd.c[1][1] IN
    IF fd.multi THEN
        IF Len(fd.c) < 2 \/ Len(fd.c[2]) < 2 THEN <<>>
        ELSE LET a == fd.c[2][1] b == fd.c[2][2] IN
             << <<a, a, b, a>>, [i \in 1..20 |-> IF i % 3 = 0 THEN b ELSE a] >> \o (IF Len(el) \in 2..4 /\ AsIs(el, "f:") THEN << <<Around(el)[1][1], Around(el)[3][1], b>>, <<Ones(el)[1][1], Ones(el)[3][1], Ones(el)[4][1]>> >> ELSE <<>>)
               \o (IF Len(el) > 2 /\ \E i \in 1..Len(el) : Pre(el[i]) = "i:" THEN << Sparse(el) \o <<Level(el), Level(b)>> >> ELSE <<>>)
               \o (IF Len(el) = 1 /\ AsIs(el, "f:") THEN << << <<Zero1>>, a, <<Zero1>>, <<OneF>> >> >> ELSE <<>>)
               \o (IF Len(el) = 1 /\ AsIs(el, "i:") /\ fd.ks = <<>> THEN << << <<ZeroI>>, a, <<ZeroI>> >> >> ELSE <<>>)
    ELSE IF Len(el) = 1 THEN
        IF AsIs(el, "f:") THEN Plain1(<<"f:1.0", "f:-1.0">>)
        ELSE IF AsIs(el, "s:") /\ Len(el[1][1]) # 38 THEN Plain1(<<"s: p ", "s:0", "s:X_">>)
        ELSE IF AsIs(el, "i:") /\ fd.ks = <<>> /\ Width(fd) = 8 THEN Plain1(<<"i:1", "i:-1", "i:256", "i:32767", "i:-32768">>)
        ELSE IF AsIs(el, "i:") /\ fd.ks = <<>> /\ Width(fd) = 13 THEN Plain1(<<"i:1", "i:-1", "i:256", "i:65536", "i:2147483647", "i:-2147483648">>)
        ELSE IF Pre(el[1]) = "h:" THEN << <<<< <<"h:1", "s:1">> >>>>, <<<< <<"h:FFFFFFFFFFFFFFFF", "s:FFFFFFFFFFFFFFFF">> >>>> >>
        ELSE <<>>
    ELSE IF AsIs(el, "f:") THEN Around(el) \o Ones(el) ELSE <<>>
CandIx == [n \in 1..Len(Catalogue) |-> [f \in 1..Len(Catalogue[n].fields) |-> LET fd == Catalogue[n].fields[f] IN IF Settable(fd) THEN fd.c \o Extra(fd) ELSE fd.c]]
Default(n, f) == Catalogue[n].fields[f].d
Val1(c, f) ==
    LET fd == K(c).fields[f] IN
    IF ~FieldIx[c.k][f].settable THEN fd.d
    ELSE IF c.m = "full" THEN IF c.x <= 2 THEN fd.c[((c.x - 1) % Len(fd.c)) + 1] ELSE CandIx[c.k][f][((c.x - 1 + f) % Len(CandIx[c.k][f])) + 1]
    ELSE IF c.x = f THEN CandIx[c.k][f][c.y] ELSE fd.d
\* a field that always holds the length of a list of the same record
DerivedIx == [n \in 1..Len(Catalogue) |-> LET k == Catalogue[n] IN
    [f \in 1..Len(k.fields) |->
        IF k.key = "E.MText" /\ k.fields[f].n = "column_count"
        THEN CHOOSE g \in 1..Len(k.fields) : k.fields[g].n = "column_heights" ELSE 0]]
\* a layer that is off has a negative color number, so its color is not the one of number zero
ZeroColor(c, f) == K(c).key = "T.Layer" /\ K(c).fields[f].n = "is_layer_on" /\ \E g \in 1..Len(K(c).fields) : K(c).fields[g].n = "color" /\ Val1(c, g)[1][1][2] = "i:0"
Val(c, f) == IF ZeroColor(c, f) THEN Default(c.k, f)
             ELSE IF DerivedIx[c.k][f] = 0 THEN Val1(c, f)
             ELSE LET l == "i:" \o ToString(Len(Val1(c, DerivedIx[c.k][f]))) IN <<<< <<l, l>> >>>>
Values(c) == [f \in 1..Len(K(c).fields) |-> Val(c, f)]

True(v) == v[1][1][1] = "b:true"
NatOf(w) == CHOOSE n \in 0..512 : w = "i:" \o ToString(n)
Bit(v, n) == IF True(v) THEN n ELSE 0

(* ---------------------------------------------------------------- saving *)
Active(it, ver, vals, n) ==
    /\ it.mn <= ver /\ ver <= it.mx
    /\ (it.t = "field" =>
          /\ (it.nd => vals[it.f] # Default(n, it.f))
          /\ (it.cond > 0 => True(vals[it.cond]))
          /\ (it.cond < 0 => ~True(vals[-it.cond])))

\* until R2007 the clipping boundary of an xref was either shown or not
Narrow(n, ver, f, val) ==
    IF Catalogue[n].fields[f].n = "is_x_ref_clipping_boundary_visible" /\ ver <= R2007 /\ val[1][1][1] = "e:DisplayedNotPlotted"
    THEN <<<< <<"e:DisplayedAndPlotted", "i:1">> >>>> ELSE val
\* one written pair: code, text, and the abstract value it stands for
Pair(c, w, v) == [c |-> c, w |-> w, v |-> v]

ItemPairs(it, ver, vals, n) ==
    IF ~Active(it, ver, vals, n) THEN <<>>
    ELSE CASE it.t = "const" -> <<Pair(it.c, it.w, it.v)>>
      [] it.t = "count" -> LET l == ToString(Len(vals[it.f])) IN
             <<Pair(it.c, IF it.ty = "f" THEN "f:" \o l \o ".0" ELSE "i:" \o l, "i:" \o l)>>
      [] it.t = "handle" -> <<Pair(it.c, "#handle", "")>>
      [] it.t = "dimtype" ->
             <<Pair(70, "i:" \o ToString(NatOf(vals[it.f][1][1][2]) + Bit(vals[it.a], 32) + Bit(vals[it.b], 64) + Bit(vals[it.cc], 128)), "")>>
      [] it.t = "layercolor" -> LET w == vals[it.f][1][1][2] IN
             <<Pair(62, IF True(vals[it.on]) THEN w ELSE "i:-" \o ToString(NatOf(w)), "")>>
      [] OTHER ->
             (IF it.var = "" THEN <<>> ELSE <<Pair(9, "s:" \o it.var, it.var)>>) \o
             FlattenSeq([e \in 1..Len(vals[it.f]) |->
                LET el == Narrow(n, ver, it.f, vals[it.f])[e]
                    cs == SelectSeq(it.cs, LAMBDA q : q[3] <= ver /\ (q[2] = 0 \/ q[4] = "" \/ el[q[2]][1] # q[4]))
                IN [i \in 1..Len(cs) |-> IF cs[i][2] = 0 THEN Pair(cs[i][1], cs[i][4], cs[i][4])
                                         ELSE Pair(cs[i][1], el[cs[i][2]][2], el[cs[i][2]][1])]])

Write(n, ver, vals) == LET wr == Catalogue[n].wr IN
    FlattenSeq([i \in 1..Len(wr) |-> ItemPairs(wr[i], ver, vals, n)])

(* ---------------------------------------------------------------- what a version can hold *)
\* the components of field f that are written in this version
Comps(n, ver, vals, f) ==
    LET k == Catalogue[n]
        live == {i \in CarrierIx[n][f] : LET it == k.wr[i] IN
                    it.mn <= ver /\ ver <= it.mx /\ (it.t = "field" /\ it.cond > 0 => True(vals[it.cond]))
                    /\ (it.t = "field" /\ it.cond < 0 => ~True(vals[-it.cond]))}
    IN UNION {LET it == k.wr[i] IN
                IF it.t # "field" THEN {1}
                ELSE {it.cs[j][2] : j \in {j \in 1..Len(it.cs) : it.cs[j][3] <= ver /\ it.cs[j][2] # 0}} : i \in live}

\* The value a field has after a round trip through a file of version ver: its own value where
\* the version can hold it, the default otherwise.  (A field whose group code carries the length
\* of a list holds that length.)
Gate(n, ver, vals, f) ==
    LET k == Catalogue[n]
        cs == Comps(n, ver, vals, f)
        cnt == {i \in CountIx[n][f] : k.wr[i].mn <= ver /\ ver <= k.wr[i].mx}
    IN
    IF cs = {} /\ cnt # {} THEN LET l == "i:" \o ToString(Len(vals[k.wr[Min(cnt)].f])) IN <<<< <<l, l>> >>>>
    ELSE IF cs = {} THEN Default(n, f)
    ELSE IF cs = 1..FieldIx[n][f].nc THEN Narrow(n, ver, f, vals[f])
    ELSE [e \in 1..Len(vals[f]) |-> [i \in 1..Len(vals[f][e]) |->
             IF i \in cs THEN vals[f][e][i]
             ELSE IF k.fields[f].d # <<>> THEN k.fields[f].d[1][i]
             ELSE <<IF SubSeq(vals[f][e][i][1], 1, 2) = "f:" THEN "f:0.0" ELSE "i:0", "">>]]

(* ---------------------------------------------------------------- loading *)
\* the positions of the pairs taken for each field (tk: the read entry that takes each pair)
ReadField(n, ps, tk, f) ==
    LET k == Catalogue[n]
        fd == k.fields[f]
        ix == FieldIx[n][f]
        mine == SetToSortSeq({p \in 1..Len(ps) : tk[p] # 0 /\ k.rd[tk[p]][2] = f}, <)
        t == [i \in 1..ix.nc |->
                IF ix.same THEN (IF Len(mine) >= i THEN <<ps[mine[i]].v>> ELSE <<>>)
                ELSE LET q == SelectSeq(mine, LAMBDA p : k.rd[tk[p]][3] = i) IN [x \in 1..Len(q) |-> ps[q[x]].v]]
    IN IF fd.multi
       THEN [e \in 1..Len(t[1]) |-> [i \in 1..ix.nc |-> IF e <= Len(t[i]) THEN t[i][e] ELSE "?"]]
       ELSE << [i \in 1..ix.nc |-> IF t[i] = <<>> THEN fd.d[1][i][1] ELSE t[i][Len(t[i])]] >>
\* Which entry takes each pair.  In the common part of an entity (between its AcDbEntity marker
\* and the next one) the shared codes are common properties; the first 330 of an object, before
\* any marker, is its owner.
Takers(n, ps) ==
    LET k == Catalogue[n]
        marks == {p \in 1..Len(ps) : ps[p].c = 100}
        starts == {p \in marks : ps[p].v = "s:AcDbEntity"}
        common(p) == \E q \in starts : q < p /\ ~\E r \in marks : q < r /\ r < p
        owner == {p \in 1..Len(ps) : ps[p].c = 330 /\ ~\E r \in marks : r < p}
        isent == SubSeq(k.key, 1, 2) = "E."
        isobj == SubSeq(k.key, 1, 2) = "O." /\ k.key # "O.Field"
    IN [p \in 1..Len(ps) |->
          IF isent /\ ps[p].c \in Shared /\ ps[p].c \in DOMAIN CommonIx[n] /\ common(p) THEN CommonIx[n][ps[p].c]
          ELSE IF isobj /\ owner # {} /\ p = Min(owner) THEN CommonIx[n][330]
          ELSE Taker(n, ps[p].c)]
Read(n, ps) == LET tk == Takers(n, ps) IN
    [f \in 1..Len(Catalogue[n].fields) |-> ReadField(n, ps, tk, f)]
Abs(value) == [e \in 1..Len(value) |-> [i \in 1..Len(value[e]) |-> value[e][i][1]]]

Checked(n, f) == FieldIx[n][f].settable /\ <<Catalogue[n].key, Catalogue[n].fields[f].n>> \notin Lossy

(* ---------------------------------------------------------------- foreign pairs *)
\* Pairs other programs might put into a record: a group code of every type.  Those the kind
\* has no use for may stand anywhere in the record and change nothing.
Noise == << <<59, "f:7.5">>, <<79, "i:7">>, <<99, "i:70007">>, <<149, "f:-3.25">>, <<169, "i:77">>, <<179, "i:-7">>, <<239, "f:1.5">>, <<289, "i:7">>, <<299, "i:1">>,
            <<309, "s:FOREIGN">>, <<319, "x:00FF7F">>, <<329, "s:7F">>, <<369, "s:7E">>, <<379, "i:7">>, <<389, "i:-9">>, <<399, "s:7D">>, <<409, "i:8">>, <<419, "s:}">>,
            <<429, "i:70000">>, <<439, "s:{">>, <<459, "i:-70000">>, <<469, "f:0.125">>, <<479, "s: b ">>, <<999, "s:remark">> >>
TakesAll == {"O.XRecordObject"}         \* every pair is content
StrangeIx == [n \in 1..Len(Catalogue) |-> LET k == Catalogue[n] IN
    IF k.key \in TakesAll THEN <<>>
    ELSE SelectSeq(Noise, LAMBDA q : q[1] \notin DOMAIN TakerIx[n] /\ q[1] \notin {k.wr[i].c : i \in {i \in 1..Len(k.wr) : k.wr[i].t \in {"const", "count"}}})]

(* ---------------------------------------------------------------- behaviour *)
\* a default that is made up at the moment it is needed
Fresh(f) == f.d # <<>> /\ f.d[1] # <<>> /\ f.d[1][1][1] \in {"d:2000-01-01T00:00:00Z", "s:11111111-2222-3333-4444-555555555555"}
Supported(k, ver) == k.min <= ver /\ ver <= k.max

FullCases == {[k |-> i, v |-> v, m |-> "full", x |-> x, y |-> 0] :
                 i \in 1..Len(Catalogue), v \in 1..NumVersions, x \in 1..NFull}
HotCases == UNION {LET k == Catalogue[i] IN
                UNION {LET fd == k.fields[f] IN
                   IF ~Settable(fd) THEN {} ELSE
                   {[k |-> i, v |-> k.min + ((h * 7 + Seed * 5 + f + 3 * y) % (k.max - k.min + 1)), m |-> "hot", x |-> f, y |-> y] :
                      y \in 1..Len(CandIx[i][f]), h \in 1..HotVers} : f \in 1..Len(k.fields)}
             : i \in 1..Len(Catalogue)}

Init == /\ case \in FullCases \cup HotCases
        /\ phase = "new" /\ wire = <<>> /\ back = <<>> /\ wire2 = <<>>

Save == /\ phase = "new" /\ phase' = "saved"
        /\ wire' = IF Supported(K(case), case.v) THEN Write(case.k, case.v, Values(case)) ELSE <<>>
        /\ UNCHANGED <<case, back, wire2>>
Load == /\ phase = "saved" /\ phase' = "loaded"
        /\ back' = IF K(case).noread \/ K(case).nowire \/ ~Supported(K(case), case.v) THEN <<>> ELSE Read(case.k, wire)
        /\ UNCHANGED <<case, wire, wire2>>
\* the loaded record, saved again
\* the loaded record: every field holds what the file could carry
Loaded(n, ver, vals) == [f \in 1..Len(Catalogue[n].fields) |->
    IF FieldIx[n][f].settable THEN Gate(n, ver, vals, f) ELSE Default(n, f)]
SaveAgain == /\ phase = "loaded" /\ phase' = "again"
             /\ wire2' = IF Supported(K(case), case.v)
                         THEN Write(case.k, case.v, Loaded(case.k, case.v, Values(case))) ELSE <<>>
             /\ UNCHANGED <<case, wire, back>>
Next == Save \/ Load \/ SaveAgain
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- properties *)
\* What was saved comes back, field by field.
RoundTrip ==
    phase = "loaded" /\ back # <<>> =>
      LET k == K(case) vals == Values(case) IN
      \A f \in 1..Len(k.fields) : Checked(case.k, f) => back[f] = Abs(Gate(case.k, case.v, vals, f))
\* A pair that means nothing to the kind changes nothing, wherever it stands.
Undisturbed ==
    phase = "loaded" /\ back # <<>> /\ StrangeIx[case.k] # <<>> =>
      LET q == StrangeIx[case.k][((case.x + case.v + 5 * case.y) % Len(StrangeIx[case.k])) + 1]
          at == (case.v * 7 + case.x * 3 + case.y) % (Len(wire) + 1)
      IN Read(case.k, SubSeq(wire, 1, at) \o <<Pair(q[1], q[2], q[2])>> \o SubSeq(wire, at + 1, Len(wire))) = back
\* Loading what was saved after a load changes nothing any more.
FixedPoint == phase = "again" /\ Supported(K(case), case.v) =>
    Write(case.k, case.v, Loaded(case.k, case.v, Loaded(case.k, case.v, Values(case)))) = wire2
\* A version that does not define a field or a kind is never given it.
OnlyDefined == phase = "saved" /\ ~Supported(K(case), case.v) => wire = <<>>

(* ---------------------------------------------------------------- conformance cases *)
CaseJson ==
    LET k == K(case) vals == Values(case)
        fs == SelectSeq([f \in 1..Len(k.fields) |-> f], LAMBDA f : FieldIx[case.k][f].settable)
        set == SelectSeq(fs, LAMBDA f : vals[f] # k.fields[f].d)
    IN ToJson([k |-> k.key, v |-> case.v, id |-> k.key \o "/" \o ToString(case.v) \o "/" \o case.m \o "/" \o ToString(case.x) \o "/" \o ToString(case.y),
               ok |-> Supported(k, case.v),
               set |-> [i \in 1..Len(set) |-> <<set[i], Abs(vals[set[i]])>>],
               lost |-> LET l == SelectSeq(fs, LAMBDA f : Gate(case.k, case.v, vals, f) # vals[f]) IN [i \in 1..Len(l) |-> <<l[i], Abs(Gate(case.k, case.v, vals, l[i]))>>],
               \* dates and identifiers the version cannot hold are made up anew on load
               fresh |-> SelectSeq(fs, LAMBDA f : Fresh(k.fields[f]) /\ Comps(case.k, case.v, vals, f) = {}),
               wire |-> IF k.nowire THEN <<>> ELSE [i \in 1..Len(wire) |-> <<wire[i].c, wire[i].w>>]])
MetaJson ==
    ToJson([meta |-> [i \in 1..Len(Catalogue) |-> LET k == Catalogue[i] IN
        [key |-> k.key, tstr |-> k.tstr, nowire |-> k.nowire, noise |-> StrangeIx[i],
         fields |-> [f \in 1..Len(k.fields) |-> LET fd == k.fields[f] IN
             [n |-> fd.n, ks |-> fd.ks, multi |-> fd.multi, st |-> Settable(fd), d |-> Abs(fd.d)]]]]])
Append1(line) == Serialize(line \o "\n", OutFile, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
EmitMeta == Append1(MetaJson)
Emit == phase = "saved" => Append1(CaseJson)
=============================================================================
