------------------------------- MODULE Compound -------------------------------
(* Entities made of several records.  A file holds a flat sequence of records; reading puts a
   polyline together with its vertices, an insert with its attributes, an attribute with the text
   attached to it, up to the end marker or the first record that is not a part.
   Any sequence of records may be read (files are often incomplete); what was read is written
   again with all markers, and read again.                                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS MaxRecs, OutFile

VARIABLES recs, dwg, file, phase
vars == <<recs, dwg, file, phase>>

(* records: t type, id a number that makes each recognizable, h handle, own owner *)
Types == {"LINE", "POLYLINE", "VERTEX", "SEQEND", "INSERT", "INSERT1", "ATTRIB", "ATTDEF", "MTEXT", "MTEXTOF", "FOO"}
IsAtt(t) == t \in {"ATTRIB", "ATTDEF"}

(* ---- reading *)
NoText == <<>>                  \* otherwise the attached text, in a sequence of one
IdOf(x) == IF x = NoText THEN 0 ELSE x[1]   \* an attribute always has a text: without one in the file, the default one, 0
G(r, parts, txt, end) == [t |-> r.t, id |-> r.id, h |-> r.h, parts |-> parts, txt |-> txt, end |-> end]
TextOf(a, q) == IF q # <<>> /\ Head(q).t = "MTEXT" /\ Head(q).own = a.h THEN <<Head(q).id>> ELSE NoText
Skip(n, q) == SubSeq(q, n + 1, Len(q))
RECURSIVE Verts(_)
Verts(q) == IF q # <<>> /\ Head(q).t = "VERTEX" THEN <<[id |-> Head(q).id, h |-> Head(q).h, txt |-> NoText]>> \o Verts(Tail(q)) ELSE <<>>
RECURSIVE Atts(_)    \* pairs of a part and the number of records it takes
Atts(q) == IF q # <<>> /\ Head(q).t = "ATTRIB"
           THEN LET x == TextOf(Head(q), Tail(q))  n == IF x = NoText THEN 1 ELSE 2
                IN <<[id |-> Head(q).id, h |-> Head(q).h, txt |-> x, n |-> n]>> \o Atts(Skip(n, q))
           ELSE <<>>
Total(q) == FoldSeq(LAMBDA a, s : s + a.n, 0, q)
Strip(q) == [k \in 1..Len(q) |-> [id |-> q[k].id, h |-> q[k].h, txt |-> q[k].txt]]
EndOf(q) == IF q # <<>> /\ Head(q).t = "SEQEND" THEN <<Head(q).h>> ELSE <<>>
RECURSIVE Parse(_)
Parse(q) ==
    IF q = <<>> THEN <<>> ELSE
    LET r == Head(q)  rest == Tail(q) IN
    CASE r.t = "FOO" -> Parse(rest)
      [] r.t = "POLYLINE" -> LET p == Verts(rest)  e == EndOf(Skip(Len(p), rest)) IN <<G(r, p, NoText, e)>> \o Parse(Skip(Len(p) + Len(e), rest))
      [] r.t = "INSERT" /\ r.has -> LET p == Atts(rest)  e == EndOf(Skip(Total(p), rest)) IN <<G(r, Strip(p), NoText, e)>> \o Parse(Skip(Total(p) + Len(e), rest))
      [] IsAtt(r.t) -> LET x == TextOf(r, rest) IN <<G(r, <<>>, x, <<>>)>> \o Parse(Skip(IF x = NoText THEN 0 ELSE 1, rest))
      [] OTHER -> <<G(r, <<>>, NoText, <<>>)>> \o Parse(rest)
\* records of a kind the reader does not know are skipped before anything else happens
Known(q) == SelectSeq(q, LAMBDA r : r.t # "FOO")
Read(q) == Parse(Known(q))

(* ---- writing; attached texts need a version that has them *)
R(t, id, h, own, has) == [t |-> t, id |-> id, h |-> h, own |-> own, has |-> has]
AttRecs(t, a, texts) == <<R(t, a.id, a.h, 0, FALSE)>> \o (IF texts THEN <<R("MTEXT", IdOf(a.txt), 0, a.h, FALSE)>> ELSE <<>>)
RECURSIVE Write(_, _)
Write(gs, texts) ==
    IF gs = <<>> THEN <<>> ELSE
    LET g == Head(gs)
        end == <<R("SEQEND", 0, IF g.end = <<>> THEN 0 ELSE g.end[1], 0, FALSE)>>
        out == CASE g.t = "POLYLINE" -> <<R("POLYLINE", g.id, g.h, 0, FALSE)>> \o [k \in 1..Len(g.parts) |-> R("VERTEX", g.parts[k].id, g.parts[k].h, 0, FALSE)] \o end
                 [] g.t = "INSERT" -> <<R("INSERT", g.id, g.h, 0, g.parts # <<>>)>> \o FlattenSeq([k \in 1..Len(g.parts) |-> AttRecs("ATTRIB", g.parts[k], texts)]) \o (IF g.parts = <<>> THEN <<>> ELSE end)
                 [] IsAtt(g.t) -> AttRecs(g.t, g, texts)
                 [] g.t = "MTEXT" /\ ~texts -> <<>>
                 [] OTHER -> <<R(g.t, g.id, g.h, g.own, FALSE)>>
    IN out \o Write(Tail(gs), texts)
(* what the reader makes of it can be compared with what was written up to markers *)
Plain(gs, texts) == [k \in 1..Len(gs) |-> [t |-> gs[k].t, id |-> gs[k].id, parts |-> [j \in 1..Len(gs[k].parts) |-> <<gs[k].parts[j].id, IF texts THEN IdOf(gs[k].parts[j].txt) ELSE 0>>],
                                          txt |-> IF texts THEN IdOf(gs[k].txt) ELSE 0]]
WithOwner(gs) == [k \in 1..Len(gs) |-> gs[k] @@ [own |-> 0]]
NoTexts(gs) == SelectSeq(gs, LAMBDA g : g.t # "MTEXT")

(* ---- behaviour *)
LastAtt(q) == LET hs == {k \in 1..Len(q) : IsAtt(q[k].t)} IN IF hs = {} THEN 0 ELSE q[CHOOSE k \in hs : \A j \in hs : j <= k].h
New(t, q) == LET n == Len(q) + 1  h == 100 + n
             IN R(IF t = "INSERT1" THEN "INSERT" ELSE IF t = "MTEXTOF" THEN "MTEXT" ELSE t, n, h, IF t = "MTEXTOF" THEN LastAtt(q) ELSE 7, t = "INSERT1")
Init == recs = <<>> /\ dwg = <<>> /\ file = <<>> /\ phase = "file"
More == phase = "file" /\ Len(recs) < MaxRecs /\ \E t \in Types : (t = "MTEXTOF" => LastAtt(recs) # 0) /\ recs' = Append(recs, New(t, recs)) /\ UNCHANGED <<dwg, file, phase>>
Load == phase = "file" /\ dwg' = Read(recs) /\ phase' = "loaded" /\ UNCHANGED <<recs, file>>
Save == phase = "loaded" /\ file' \in {<<TRUE, Write(WithOwner(dwg), TRUE)>>, <<FALSE, Write(WithOwner(dwg), FALSE)>>} /\ phase' = "saved" /\ UNCHANGED <<recs, dwg>>
Next == More \/ Load \/ Save
Spec == Init /\ [][Next]_vars

(* ---- properties *)
Ids(gs) == UNION {{gs[k].id} \cup {gs[k].parts[j].id : j \in 1..Len(gs[k].parts)} \cup {IdOf(gs[k].parts[j].txt) : j \in 1..Len(gs[k].parts)} \cup {IdOf(gs[k].txt)} : k \in 1..Len(gs)}
\* every record of a known kind ends up somewhere, except end markers that closed something
NothingLost == phase = "loaded" => \A k \in 1..Len(recs) : recs[k].t \in {"FOO", "SEQEND"} \/ recs[k].id \in Ids(dwg)
\* parts never outlive their owner's place: the order of the file is kept
InOrder == phase = "loaded" => \A k \in 1..Len(dwg) - 1 : dwg[k].id < dwg[k + 1].id
OnlyParts == phase = "loaded" => \A k \in 1..Len(dwg) : dwg[k].parts # <<>> => dwg[k].t \in {"POLYLINE", "INSERT"}
SaveKeeps == phase = "saved" => Plain(Read(file[2]), file[1]) = Plain(IF file[1] THEN dwg ELSE NoTexts(dwg), file[1])

Append1(line) == Serialize(line \o "\n", OutFile, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Emit == phase = "loaded" => Append1(ToJson([recs |-> recs, dwg |-> dwg]))
=============================================================================
