-------------------------------- MODULE Reader --------------------------------
(* Loading a drawing file: a machine that takes one pair (group code, value) after the other and
   ends with the content of the drawing or with an error.  Whatever it does not know it passes
   over; whatever breaks the structure of the file it reports.
   TLC explores pair sequences token by token (a token is a short run of pairs), predicts what
   loading them gives when the input stops here, and when it is closed properly from here, and
   writes both down for replay.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS Focus,     \* sections that may be opened
          MaxTok,    \* tokens in a file
          MaxOdd,    \* how many of them may be unknown, repeated or wrong
          OutFile

VARIABLES s,         \* the reader
          toks,      \* what it was given: pairs
          n, odd,
          prev,      \* the reader before the last token
          cut        \* length of toks before the last token
vars == <<s, toks, n, odd, prev, cut>>

(* ------------------------------------------------------------------ content *)
NoHeader == [menu |-> ".", prec |-> 4, base |-> <<0, 0, 0>>, ver |-> 13]
Empty == [hdr |-> NoHeader, cls |-> <<>>, lay |-> <<>>, app |-> <<>>, blk |-> <<>>, ent |-> <<>>, obj |-> <<>>, img |-> 0]
Start == [m |-> "top", var |-> "", tab |-> "", item |-> "", d |-> 0, x |-> 0, c |-> Empty, why |-> "", at |-> 0, sat |-> 0, bl |-> 0]

Fail(st, why) == [st EXCEPT !.m = "err", !.why = why]
Go(st, m) == [st EXCEPT !.sat = 0, !.m = m, !.item = "", !.var = "", !.tab = "", !.x = 0, !.d = 0]
SetLast(q, v) == [q EXCEPT ![Len(q)] = v]

NewEnt(t) == [t |-> t, lay |-> "0", col |-> 256, ext |-> <<>>, xd |-> <<>>]
KnownEnt == {"LINE", "CIRCLE", "SECTION"}     \* there is an entity of that name
KnownObj == {"ACDBPLACEHOLDER", "DICTIONARYVAR"}

(* ------------------------------------------------------------------ records: fields, groups, extended data
   x = 1: inside the extended data of one application; d: how deep in a list or group
   `it` is the record under construction, `kind` its type ("" for an unknown one)             *)
Carrier == {"ent", "ient", "obj", "tabitem", "blk"}
AddExt(it) == [it EXCEPT !.ext = Append(@, 0)]
AddX(it) == [it EXCEPT !.xd = Append(@, 0)]
Bump(q) == SetLast(q, Last(q) + 1)

(* the record a pair belongs to *)
Rec(st) == CASE st.m = "ent" -> Last(st.c.ent) [] st.m = "ient" -> Last(Last(st.c.blk).ents) [] st.m = "obj" -> Last(st.c.obj)
             [] st.m = "blk" -> Last(st.c.blk) [] st.m = "tabitem" -> IF st.tab = "LAYER" THEN Last(st.c.lay) ELSE Last(st.c.app)
WithRec(st, r) == CASE st.m = "ent" -> [st EXCEPT !.c.ent = SetLast(@, r)]
                    [] st.m = "ient" -> [st EXCEPT !.c.blk = SetLast(@, [Last(@) EXCEPT !.ents = SetLast(@, r)])]
                    [] st.m = "obj" -> [st EXCEPT !.c.obj = SetLast(@, r)]
                    [] st.m = "blk" -> [st EXCEPT !.c.blk = SetLast(@, r)]
                    [] st.m = "tabitem" -> IF st.tab = "LAYER" THEN [st EXCEPT !.c.lay = SetLast(@, r)] ELSE [st EXCEPT !.c.app = SetLast(@, r)]

Num(v) == CASE v = "1" -> 1 [] v = "2" -> 2 [] v = "3" -> 3 [] v = "5" -> 5 [] v = "6" -> 6 [] v = "7" -> 7 [] v = "0" -> 0 [] OTHER -> 0

Field(m, t, r, c, v) ==
    CASE m \in {"ent", "ient"} -> (CASE c = 8 -> [r EXCEPT !.lay = v] [] c = 62 -> [r EXCEPT !.col = Num(v)] [] OTHER -> r)
      [] m = "obj" -> (IF t = "DICTIONARYVAR" /\ c = 1 THEN [r EXCEPT !.val = v] ELSE r)
      [] m = "tabitem" -> (CASE c = 2 -> [r EXCEPT !.name = v] [] c = 62 /\ "col" \in DOMAIN r -> [r EXCEPT !.col = Num(v)] [] OTHER -> r)
      [] m = "blk" -> (CASE c = 2 -> [r EXCEPT !.name = v] [] c = 4 -> [r EXCEPT !.desc = v] [] OTHER -> r)

Opens(v) == v \in {"{A", "{B"}
InGroup(st, c, v) ==       \* an extension group takes everything up to its end
    IF c = 102
    THEN (IF v = "}" THEN [st EXCEPT !.d = @ - 1, !.x = IF st.d = 1 THEN 0 ELSE 2]
          ELSE IF Opens(v) THEN [st EXCEPT !.d = @ + 1] ELSE Fail(st, "pair"))
    ELSE WithRec(st, [Rec(st) EXCEPT !.ext = Bump(@)])
XKnown == {1000, 1002, 1003, 1004, 1005, 1010, 1011, 1012, 1013, 1040, 1041, 1042, 1070, 1071}
InX(st, c, v) ==           \* st.x = 1, c >= 1000, c # 1001 unless in a list
    IF c = 1002 THEN (IF st.d = 0 THEN [WithRec(st, [Rec(st) EXCEPT !.xd = Bump(@)]) EXCEPT !.d = 1]
                      ELSE IF v = "}" THEN [st EXCEPT !.d = @ - 1] ELSE [WithRec(st, [Rec(st) EXCEPT !.xd = Bump(@)]) EXCEPT !.d = @ + 1])
    ELSE IF c \in XKnown THEN WithRec(st, [Rec(st) EXCEPT !.xd = Bump(@)])
    ELSE Fail(st, "code")

RECURSIVE Pair(_, _, _)
(* a pair other than 0/x for the record being read *)
Inside(st, c, v) ==
    IF st.x = 2 THEN InGroup(st, c, v)
    ELSE IF st.x = 1 /\ (c >= 1000 /\ (c # 1001 \/ st.d > 0)) THEN InX(st, c, v)
    ELSE IF st.x = 1 /\ st.d > 0 THEN Fail(st, "pair")
    ELSE IF st.x = 1 THEN Pair([st EXCEPT !.x = 0], c, v)
    ELSE IF c = 1001 THEN [WithRec(st, AddX(Rec(st))) EXCEPT !.x = 1, !.d = 0]
    ELSE IF c = 102 THEN (IF Opens(v) THEN [WithRec(st, AddExt(Rec(st))) EXCEPT !.x = 2, !.d = 1] ELSE Fail(st, "value"))
    ELSE WithRec(st, Field(st.m, st.item, Rec(st), c, v))
(* a new record ends the one before, unless that is in the middle of something *)
Ends(st, c, v) == IF st.x = 2 THEN "no" ELSE IF st.x = 1 /\ st.d > 0 THEN "err" ELSE "yes"

Stray == {"SECTION", "EOF"}     \* only between sections, but for the entity
(* 0/SECTION followed by a name opens a section after all: one that was not closed precedes it *)
Fresh(st) == st.m \in {"ent", "ient"} /\ st.item = "SECTION" /\ st.sat > 0

Entity0(st, c, v, inblk) ==
    CASE v \in KnownEnt -> [Go(IF inblk THEN [st EXCEPT !.c.blk = SetLast(@, [Last(@) EXCEPT !.ents = Append(@, NewEnt(v))])] ELSE [st EXCEPT !.c.ent = Append(@, NewEnt(v))],
                               IF inblk THEN "ient" ELSE "ent") EXCEPT !.item = v, !.sat = IF v = "SECTION" THEN st.at ELSE 0]
      [] OTHER -> Go(st, IF inblk THEN "iskip" ELSE "skip")

(* ------------------------------------------------------------------ one pair *)
Pair(st, c, v) ==
    IF st.m \in {"err", "done"} THEN st
    ELSE IF st.bl > 0 THEN (IF c = -2 THEN st ELSE Fail([st EXCEPT !.at = st.bl], "value"))   \* more than empty lines after an empty line
    ELSE IF c = -2 THEN [st EXCEPT !.bl = st.at]         \* an empty line in place of a pair
    ELSE IF c = -1 THEN Fail(st, "code")                \* a group code that has no type
    ELSE IF v = "@bad" THEN Fail(st, "value")           \* does not parse
    ELSE IF c = 999 THEN st                             \* comment
    ELSE IF Fresh(st) THEN (IF c = 2 THEN Fail([st EXCEPT !.at = st.sat], "pair") ELSE Pair([st EXCEPT !.sat = 0], c, v))
    ELSE CASE
       st.m = "top" -> IF c = 0 /\ v = "SECTION" THEN Go(st, "name") ELSE IF c = 0 /\ v = "EOF" THEN Go(st, "done") ELSE Fail(st, "pair")
    [] st.m = "name" -> IF c # 2 THEN Fail(st, "pair")
                        ELSE CASE v = "HEADER" -> Go([st EXCEPT !.c.hdr = NoHeader], "hdr")
                               [] v = "CLASSES" -> Go(st, "cls") [] v = "TABLES" -> Go(st, "tabs") [] v = "BLOCKS" -> Go(st, "blks")
                               [] v = "ENTITIES" -> Go(st, "ents") [] v = "OBJECTS" -> Go(st, "objs") [] v = "THUMBNAILIMAGE" -> Go([st EXCEPT !.c.img = 0], "thumb0")
                               [] OTHER -> Go(st, "foo")
    (* header *)
    [] st.m = "hdr" -> IF c = 0 THEN (IF v = "ENDSEC" THEN Go(st, "top") ELSE Fail(st, "pair"))
                       ELSE IF c = 9 THEN [st EXCEPT !.var = v]
                       ELSE CASE st.var = "" -> Fail(st, "pair")
                              [] st.var = "$MENU" -> IF c = 1 THEN [st EXCEPT !.c.hdr.menu = v] ELSE Fail(st, "pair")
                              [] st.var = "$LUPREC" -> IF c = 70 THEN [st EXCEPT !.c.hdr.prec = Num(v)] ELSE Fail(st, "pair")
                              [] st.var = "$INSBASE" -> IF c \in {10, 20, 30} THEN [st EXCEPT !.c.hdr.base[IF c = 10 THEN 1 ELSE IF c = 20 THEN 2 ELSE 3] = Num(v)] ELSE Fail(st, "pair")
                              [] st.var = "$ACADVER" -> IF c = 1 THEN [st EXCEPT !.c.hdr.ver = IF v = "AC1015" THEN 16 ELSE 13] ELSE Fail(st, "pair")
                              [] OTHER -> st
    (* classes *)
    [] st.m = "cls" -> IF c = 0
                       THEN (IF v = "ENDSEC" THEN Go(st, "top") ELSE IF v \in Stray THEN Fail(st, "pair")
                             ELSE [st EXCEPT !.c.cls = Append(@, [name |-> IF st.c.hdr.ver <= 14 THEN v ELSE "", cpp |-> ""]), !.item = v])
                       ELSE IF st.item = "" THEN st
                       ELSE IF c = 1 THEN (IF st.c.hdr.ver <= 14 THEN [st EXCEPT !.c.cls = SetLast(@, [Last(@) EXCEPT !.cpp = v])] ELSE [st EXCEPT !.c.cls = SetLast(@, [Last(@) EXCEPT !.name = v])])
                       ELSE IF c = 2 /\ st.c.hdr.ver > 14 THEN [st EXCEPT !.c.cls = SetLast(@, [Last(@) EXCEPT !.cpp = v])]
                       ELSE st
    (* tables *)
    [] st.m = "tabs" -> IF c = 0 /\ v = "ENDSEC" THEN Go(st, "top") ELSE IF c = 0 /\ v = "TABLE" THEN Go(st, "tabname") ELSE Fail(st, "pair")
    [] st.m = "tabname" -> IF c = 2 THEN [Go(st, IF v \in {"LAYER", "APPID"} THEN "tab" ELSE "tabskip") EXCEPT !.tab = v] ELSE Fail(st, "table")
    [] st.m = "tabskip" -> IF c = 0 /\ v = "ENDTAB" THEN Go(st, "tabs") ELSE IF c = 0 /\ v \in {"ENDSEC", "TABLE"} \cup Stray THEN Fail(st, "pair") ELSE st
    [] st.m \in {"tab", "tabitem"} ->
           IF c = 0 /\ Ends(st, c, v) = "err" THEN Fail(st, "pair")
           ELSE IF c = 0 /\ Ends(st, c, v) = "yes"
           THEN (IF v = "ENDTAB" THEN Go(st, "tabs") ELSE IF v # st.tab THEN Fail(st, "pair")
                 ELSE LET t == st.tab IN [Go(IF t = "LAYER" THEN [st EXCEPT !.c.lay = Append(@, [name |-> "", col |-> 7, ext |-> <<>>, xd |-> <<>>])] ELSE [st EXCEPT !.c.app = Append(@, [name |-> "", ext |-> <<>>, xd |-> <<>>])], "tabitem") EXCEPT !.tab = t])
           ELSE IF st.m = "tab" THEN st ELSE Inside(st, c, v)
    (* blocks *)
    [] st.m \in {"blks", "endblk"} -> IF c = 0 THEN (IF v = "ENDSEC" THEN Go(st, "top") ELSE IF v = "BLOCK" THEN Go([st EXCEPT !.c.blk = Append(@, [name |-> "", desc |-> "", ents |-> <<>>, ext |-> <<>>, xd |-> <<>>])], "blk") ELSE Fail(st, "pair"))
                                      ELSE IF st.m = "blks" THEN Fail(st, "pair") ELSE st
    [] st.m \in {"blk", "ient", "iskip"} ->
           IF c = 0 /\ Ends(st, c, v) = "err" THEN Fail(st, "pair")
           ELSE IF c = 0 /\ Ends(st, c, v) = "yes"
           THEN (IF v = "ENDBLK" THEN Go(st, "endblk") ELSE IF v \in {"ENDSEC", "BLOCK", "EOF"} THEN Fail(st, "pair") ELSE Entity0(st, c, v, TRUE))
           ELSE IF st.m = "iskip" THEN st ELSE Inside(st, c, v)
    (* entities *)
    [] st.m \in {"ents", "ent", "skip"} ->
           IF c = 0 /\ Ends(st, c, v) = "err" THEN Fail(st, "pair")
           ELSE IF c = 0 /\ Ends(st, c, v) = "yes"
           THEN (IF v = "ENDSEC" THEN Go(st, "top") ELSE IF v \in {"ENDBLK", "BLOCK", "EOF"} THEN Fail(st, "pair") ELSE Entity0(st, c, v, FALSE))
           ELSE IF st.m = "skip" THEN st ELSE IF st.m = "ents" THEN Fail(st, "pair") ELSE Inside(st, c, v)
    (* objects *)
    [] st.m \in {"objs", "obj", "oskip"} ->
           IF c = 0 /\ Ends(st, c, v) = "err" THEN Fail(st, "pair")
           ELSE IF c = 0 /\ Ends(st, c, v) = "yes"
           THEN (IF v = "ENDSEC" THEN Go(st, "top") ELSE IF v \in {"ENDBLK"} \cup Stray THEN Fail(st, "pair")
                 ELSE IF v \in KnownObj THEN [Go([st EXCEPT !.c.obj = Append(@, [t |-> v, val |-> "", ext |-> <<>>, xd |-> <<>>])], "obj") EXCEPT !.item = v]
                 ELSE Go(st, "oskip"))
           ELSE IF st.m = "oskip" THEN st ELSE IF st.m = "objs" THEN Fail(st, "pair") ELSE Inside(st, c, v)
    (* preview image *)
    [] st.m = "thumb0" -> IF c = 0 THEN (IF v = "ENDSEC" THEN Go(st, "top") ELSE Fail(st, "pair")) ELSE IF c = 90 THEN Go(st, "thumb1") ELSE Fail(st, "code")
    [] st.m = "thumb1" -> IF c = 310 THEN [Go(st, "thumb2") EXCEPT !.c.img = 1] ELSE IF c = 0 THEN Fail(st, "pair") ELSE Fail(st, "code")
    [] st.m = "thumb2" -> IF c = 0 THEN (IF v = "ENDSEC" THEN Go(st, "top") ELSE Fail(st, "pair")) ELSE IF c = 310 THEN st ELSE Fail(st, "code")
    (* a section of unknown content *)
    [] st.m = "foo" -> IF c = 0 /\ v = "ENDSEC" THEN Go(st, "top") ELSE IF c = 0 /\ v \in Stray THEN Fail(st, "pair") ELSE st

RECURSIVE Feed(_, _)
Count1(st) == IF st.m = "err" THEN st ELSE [st EXCEPT !.at = @ + 1]      \* pairs taken; of an error, the one to blame
Feed(st, q) == IF q = <<>> THEN st ELSE Feed(Pair(Count1(st), Head(q)[1], Head(q)[2]), Tail(q))
(* the input stops *)
End(st) == IF st.m \in {"top", "done", "err"} THEN st ELSE Fail(st, "end")
Ok(st) == st.m # "err"

(* ------------------------------------------------------------------ what there is to write *)
OpenTok(name) == <<<<0, "SECTION">>, <<2, name>>>>
Sections == {"HEADER", "CLASSES", "TABLES", "BLOCKS", "ENTITIES", "OBJECTS", "THUMBNAILIMAGE", "FOO"}
H(k) == ToString(100 + k)     \* handles
EndSec == <<<<0, "ENDSEC">>>>
(* tokens in order, and odd ones: unknown, repeated or wrong *)
Plain(m, k) ==
    CASE m = "top" -> {OpenTok(x) : x \in Focus \cap Sections} \cup {<<<<0, "EOF">>>>}
      [] m = "hdr" -> {<<<<9, "$MENU">>, <<1, "m" \o ToString(k)>>>>, <<<<9, "$LUPREC">>, <<70, "6">>>>, <<<<9, "$INSBASE">>, <<10, "1">>, <<20, "2">>, <<30, "3">>>>,
                       <<<<9, "$ACADVER">>, <<1, "AC1015">>>>, EndSec}
      [] m = "cls" -> {<<<<0, "CLASS">>, <<1, "c" \o ToString(k)>>, <<2, "p" \o ToString(k)>>>>, EndSec}
      [] m = "tabs" -> {<<<<0, "TABLE">>, <<2, "LAYER">>, <<70, "1">>>>, <<<<0, "TABLE">>, <<2, "APPID">>>>, EndSec}
      [] m \in {"tab", "tabitem"} -> {<<<<0, "LAYER">>, <<5, H(k)>>, <<2, "l" \o ToString(k)>>>>, <<<<0, "ENDTAB">>>>, <<<<62, "5">>>>}
      [] m \in {"blks", "endblk"} -> {<<<<0, "BLOCK">>, <<5, H(k)>>, <<8, "0">>, <<2, "b" \o ToString(k)>>>>, EndSec}
      [] m = "blk" -> {<<<<0, "ENDBLK">>>>, <<<<0, "LINE">>, <<5, H(k)>>, <<8, "a" \o ToString(k)>>>>, <<<<4, "d">>>>}
      [] m \in {"ient", "iskip"} -> {<<<<0, "ENDBLK">>>>, <<<<0, "LINE">>, <<5, H(k)>>, <<8, "a" \o ToString(k)>>>>, <<<<62, "3">>>>}
      [] m \in {"ents", "ent", "skip"} -> {<<<<0, "LINE">>, <<5, H(k)>>, <<8, "a" \o ToString(k)>>>>, <<<<0, "CIRCLE">>, <<5, H(k)>>>>, EndSec} \cup (IF m = "ent" THEN {<<<<62, "3">>>>} ELSE {})
      [] m \in {"objs", "obj", "oskip"} -> {<<<<0, "DICTIONARYVAR">>, <<5, H(k)>>, <<1, "v" \o ToString(k)>>>>, <<<<0, "ACDBPLACEHOLDER">>, <<5, H(k)>>>>, EndSec}
      [] m = "thumb0" -> {<<<<90, "7">>, <<310, "@img">>>>, EndSec}
      [] m = "thumb2" -> {EndSec}
      [] m = "foo" -> {<<<<0, "BAR">>, <<5, H(k)>>, <<1, "x">>>>, EndSec}
      [] OTHER -> {}
(* for records that can carry application data *)
Data == {<<<<1001, "APP">>, <<1000, "s">>, <<1070, "7">>>>, <<<<1002, "{">>>>, <<<<1002, "}">>>>, <<<<1000, "t">>>>, <<<<102, "{A">>>>, <<<<102, "}">>>>, <<<<102, "A">>>>, <<<<330, "1">>>>, <<<<1001, "BPP">>>>}
Odd(m, k) ==
    {<<<<999, "a comment">>>>, <<<<-2, "">>>>, <<<<0, "SECTION">>, <<2, "OBJECTS">>>>, <<<<-1, "x">>>>, <<<<70, "@bad">>>>, <<<<40, "@bad">>>>, <<<<0, "SECTION">>>>, <<<<0, "ENDSEC">>>>, <<<<0, "EOF">>>>, <<<<0, "FOO">>>>, <<<<0, "FOO">>, <<5, H(k)>>, <<8, "zz">>, <<62, "1">>, <<2, "zz">>>>, <<<<70, "1">>>>, <<<<300, "x">>>>}
    \cup CASE m = "top" -> {OpenTok(x) : x \in Sections} \cup {<<<<0, "SECTION">>, <<1, "HEADER">>>>}
           [] m = "hdr" -> {<<<<9, "$FOO">>, <<10, "1">>, <<20, "1">>>>, <<<<9, "$FOO">>>>, <<<<9, "$LUPREC">>>>, <<<<9, "$MENU">>, <<70, "1">>>>, <<<<1, "zz">>>>, <<<<10, "5">>>>, <<<<9, "$ACADVER">>, <<1, "AC1009">>>>, <<<<9, "$LUPREC">>, <<70, "@bad">>>>}
           [] m = "cls" -> {<<<<0, "CLS2">>>>, <<<<90, "@bad">>>>, <<<<1, "zz">>>>}
           [] m = "tabs" -> {<<<<0, "TABLE">>, <<2, "FOOTAB">>>>, <<<<0, "TABLE">>, <<70, "1">>>>, <<<<0, "LAYER">>>>, <<<<0, "ENDTAB">>>>}
           [] m \in {"tab", "tabskip"} -> {<<<<0, "APPID">>, <<5, H(k)>>, <<2, "q" \o ToString(k)>>>>, <<<<0, "TABLE">>, <<2, "APPID">>>>, <<<<0, "ENDTAB">>>>, <<<<0, "LAYER">>, <<5, H(k)>>, <<2, "r" \o ToString(k)>>>>}
           [] m \in {"blks", "endblk"} -> {<<<<0, "LINE">>>>, <<<<0, "ENDBLK">>>>, <<<<8, "0">>>>}
           [] m \in {"iskip"} -> {<<<<0, "BLOCK">>, <<2, "zz">>>>, <<<<1070, "7">>>>}
           [] m = "skip" -> {<<<<0, "ENDBLK">>>>, <<<<1070, "7">>>>}
           [] m \in {"ients", "ents"} -> {<<<<0, "ENDBLK">>>>, <<<<8, "a">>>>}
           [] m \in {"ent", "obj"} -> Data \cup {<<<<0, "ENDBLK">>>>, <<<<1071, "7">>>>}
           [] m = "tabitem" -> Data \cup {<<<<0, "APPID">>, <<5, H(k)>>, <<2, "q" \o ToString(k)>>>>}
           [] m \in {"blk", "ient"} -> Data \cup {<<<<0, "BLOCK">>, <<2, "zz">>>>, <<<<1071, "7">>>>}
           [] m \in {"thumb0", "thumb2"} -> {<<<<310, "@img">>>>, <<<<90, "7">>, <<1, "x">>>>}
           [] m = "foo" -> {<<<<0, "LINE">>, <<5, H(k)>>>>, <<<<0, "ENDTAB">>>>}
           [] OTHER -> {}
Closing(m) == CASE m = "top" -> <<<<0, "EOF">>>> [] m = "name" -> <<<<2, "HEADER">>, <<0, "ENDSEC">>, <<0, "EOF">>>>
                [] m \in {"tab", "tabitem", "tabskip"} -> <<<<0, "ENDTAB">>, <<0, "ENDSEC">>, <<0, "EOF">>>>
                [] m \in {"blk", "ient", "iskip"} -> <<<<0, "ENDBLK">>, <<0, "ENDSEC">>, <<0, "EOF">>>>
                [] m = "tabname" -> <<<<2, "APPID">>, <<0, "ENDTAB">>, <<0, "ENDSEC">>, <<0, "EOF">>>>
                [] m = "thumb1" -> <<<<310, "@img">>, <<0, "ENDSEC">>, <<0, "EOF">>>>
                [] m \in {"done"} -> <<>> [] OTHER -> <<<<0, "ENDSEC">>, <<0, "EOF">>>>
(* close what is open inside the record first *)
Tails(st) == IF st.bl > 0 THEN <<>> ELSE (IF st.x = 2 THEN [k \in 1..st.d |-> <<102, "}">>] ELSE IF st.x = 1 THEN [k \in 1..st.d |-> <<1002, "}">>] ELSE <<>>) \o Closing(st.m)

(* ------------------------------------------------------------------ behaviours *)
Init == s = Start /\ toks = <<>> /\ n = 0 /\ odd = 0 /\ prev = Start /\ cut = 0
Give(t, o) == s' = Feed(s, t) /\ toks' = toks \o t /\ n' = n + 1 /\ odd' = odd + o /\ prev' = s /\ cut' = Len(toks)
Live == s.m \notin {"err", "done"} /\ n < MaxTok
Regular == Live /\ \E t \in Plain(s.m, n) : Give(t, 0)
Strange == Live /\ odd < MaxOdd /\ \E t \in Odd(s.m, n) \ Plain(s.m, n) : Give(t, 1)
Next == Regular \/ Strange
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ the properties, on the model *)
Tail1 == IF s.m = "err" THEN Tails(prev) ELSE Tails(s)
Whole == toks \o Tail1
Closed == End(Feed(s, Tail1))
(* without errors so far, a proper ending makes the file acceptable *)
Accepts == s.m # "err" /\ s.bl = 0 => Ok(Closed) /\ Closed.m = "done"
(* an error is an error whatever follows *)
Sticks == s.m = "err" => Feed(s, Tail1).m = "err"
(* sections, tables and blocks of an accepted file are closed *)
Count(q, v) == Cardinality({k \in 1..Len(q) : q[k] = <<0, v>>})
Grouped == \E k \in 1..Len(Whole) : Whole[k][1] = 102 \/ (Whole[k] = <<0, "SECTION">> /\ k < Len(Whole) /\ Whole[k + 1][1] # 2)       \* groups take everything up to their end
Even == Ok(Closed) /\ ~Grouped => Count(Whole, "SECTION") = Count(Whole, "ENDSEC") /\ Count(Whole, "TABLE") <= Count(Whole, "ENDTAB")
(* unknown content makes no difference: drop comments, unknown sections, and fields nobody knows *)
Unknown(p) == p[1] = 999 \/ p = <<300, "x">>
Stripped == SelectSeq(Whole, LAMBDA p : ~Unknown(p))
InExt == \E k \in 1..Len(Whole) : Whole[k][1] \in {102, 1002, 1001}
SkipsUnknown == ~InExt /\ Ok(Closed) => Feed(Start, Stripped).c = Closed.c
(* content grows only by what was read: nothing is lost at the end of a section *)
Layers == Count(Whole, "LAYER")
Keeps == Ok(Closed) => Len(Closed.c.lay) <= Layers

Outcome(st) == [ok |-> Ok(st), why |-> st.why, at |-> st.at, c |-> st.c]
Append1(line) == Serialize(line \o "\n", OutFile, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Emit == n > 0 => Append1(ToJson([pairs |-> toks, cut |-> cut, tail |-> Tail1, atend |-> Outcome(End(s)), closed |-> Outcome(Closed)]))
=============================================================================
