-------------------------------- MODULE DxbWrite --------------------------------
(* Saving a drawing as DXB and reading it back. *)
EXTENDS DxbOps, Json, IOUtils, SequencesExt
CONSTANTS MaxEnts, OutFile
VARIABLES ents,      \* of the drawing
          blk        \* of its first block: <<>> or <<base, entities>>
vars == <<ents, blk>>

E(t, lay, col, v, sub) == [t |-> t, lay |-> lay, col |-> col, v |-> v, bulge |-> 0, width |-> <<0, 0>>, sub |-> sub]
V(v, b, w) == [v |-> v, bulge |-> b, width |-> w]
Nums(k, n) == [j \in 1..n |-> (k * 20 + j) * (IF j = 2 THEN -1 ELSE 1)]
Styles == {<<"0", 256>>, <<"A", 1>>, <<"&#xE9;", 0>>, <<"A", 257>>, <<"&#x100;&#x20AC;", -3>>, <<"0", 1>>, <<"A", 0>>, <<"&#xFF;", 2>>, <<"", 256>>}
Kinds(k) == {<<"LINE", Nums(k, 6), <<>>>>, <<"POINT", Nums(k, 2), <<>>>>, <<"CIRCLE", Nums(k, 3), <<>>>>, <<"ARC", Nums(k, 3) \o <<15, 90>>, <<>>>>,
             <<"SOLID", Nums(k, 8), <<>>>>, <<"TRACE", Nums(k, 8), <<>>>>, <<"3DFACE", Nums(k, 12), <<>>>>,
             <<"POLYLINE", <<1>>, <<V(Nums(k, 2), 1, <<0, 0>>), V(Nums(k + 1, 2), 0, <<3, 4>>), V(Nums(k, 2), -1, <<5, 0>>)>>>>, <<"POLYLINE", <<0>>, <<>>>>, <<"POLYLINE", <<0>>, <<V(Nums(k, 2), 0, <<0, 0>>)>>>>,
             <<"VERTEX", Nums(k, 2), <<>>>>, <<"SEQEND", <<>>, <<>>>>, <<"TEXT", <<>>, <<>>>>, <<"INSERT", <<>>, <<>>>>}
Choice(k) == {E(t[1], s[1], s[2], t[2], t[3]) : t \in Kinds(k), s \in Styles}
Init == ents = <<>> /\ blk = <<>>
Total == Len(ents) + (IF blk = <<>> THEN 0 ELSE Len(blk[2]))
Add == Total < MaxEnts /\ \E e \in Choice(Total + 1) : ents' = Append(ents, e) /\ UNCHANGED blk
AddBlock == blk = <<>> /\ blk' = <<<<7, -9>>, <<>>>> /\ UNCHANGED ents
AddIn == blk # <<>> /\ Total < MaxEnts /\ \E e \in Choice(Total + 1) : blk' = [blk EXCEPT ![2] = Append(@, e)] /\ UNCHANGED ents
Next == Add \/ AddBlock \/ AddIn
Spec == Init /\ [][Next]_vars

(* what is written: the entities, or without any the first block *)
Fits(e) == e.t \notin {"TEXT", "INSERT"}
Source == IF ents = <<>> /\ blk # <<>> THEN blk[2] ELSE ents
R(r, v) == [r |-> r, v |-> v, s |-> ""]
Code(t) == CASE t = "LINE" -> "line" [] t = "POINT" -> "point" [] t = "CIRCLE" -> "circle" [] t = "ARC" -> "arc" [] t = "SOLID" -> "solid" [] t = "TRACE" -> "trace" [] t = "3DFACE" -> "face"
             [] t = "POLYLINE" -> "polyline" [] t = "VERTEX" -> "vertex" [] t = "SEQEND" -> "seqend"
VertexRecs(v) == <<R("vertex", v.v)>> \o (IF v.bulge # 0 THEN <<R("bulge", <<v.bulge>>)>> ELSE <<>>) \o (IF v.width # <<0, 0>> THEN <<R("width", v.width)>> ELSE <<>>)
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Concat(Tail(q))
(* names are written in one byte per character *)
Latin(e) == [e EXCEPT !.lay = IF @ = "&#x100;&#x20AC;" THEN "??" ELSE @]
One(e) == <<[r |-> "layer", v |-> <<>>, s |-> Latin(e).lay], R("color", <<e.col>>), R(Code(e.t), e.v)>> \o (IF e.t = "POLYLINE" THEN Concat([k \in 1..Len(e.sub) |-> VertexRecs(e.sub[k])]) \o <<R("seqend", <<>>)>> ELSE <<>>)
Written == LET q == SelectSeq(Source, Fits)
           IN <<R("mode", <<1>>)>> \o (IF ents = <<>> /\ blk # <<>> THEN <<R("base", blk[1])>> ELSE <<>>) \o Concat([k \in 1..Len(q) |-> One(q[k])])
Want == [err |-> "", base |-> IF ents = <<>> /\ blk # <<>> THEN blk[1] ELSE <<>>, ents |-> LET q == SelectSeq(Source, Fits) IN [k \in 1..Len(q) |-> Latin(q[k])]]
(* ---- the property, on the model: reading what was written gives the same *)
Returns == Result(Feed(Begin, Written)) = Want
Append1(line) == Serialize(line \o "\n", OutFile, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Emit == Append1(ToJson([ents |-> ents, blk |-> blk, want |-> Want]))
=============================================================================
