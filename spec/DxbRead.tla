-------------------------------- MODULE DxbRead --------------------------------
(* Reading DXB: every sequence of records. *)
EXTENDS DxbOps, Json, IOUtils, SequencesExt
CONSTANTS MaxRecs, OutFile
VARIABLES recs, st
vars == <<recs, st>>

R(r, v) == [r |-> r, v |-> v, s |-> ""]
Nums(k, n) == [j \in 1..n |-> (k * 20 + j) * (IF j = 2 THEN -1 ELSE 1)]
Alphabet(k) == {R("line", Nums(k, 6)), R("line3", Nums(k, 6)), R("linext", Nums(k, 2)), R("linext3", Nums(k, 3)), R("point", Nums(k, 2)), R("circle", Nums(k, 3)),
    R("arc", Nums(k, 3) \o <<10 * k + 1, 90>>), R("solid", Nums(k, 8)), R("trace", Nums(k, 8)), R("tracext", Nums(k, 4)), R("face", Nums(k, 12)),
    R("polyline", <<0>>), R("polyline", <<1>>), R("polyline", <<2>>), R("polyline", <<-1>>), R("vertex", Nums(k, 2)), R("seqend", <<>>), R("bulge", <<1 - 2 * k>>), R("width", <<3 * k, 5>>),
    R("scale", <<1>>), R("scale", <<4>>), R("scale", <<-2>>), [r |-> "layer", v |-> <<>>, s |-> "A" \o ToString(k)], [r |-> "layer", v |-> <<>>, s |-> "&#xE9; x"], [r |-> "layer", v |-> <<>>, s |-> "&#xFF;"], [r |-> "layer", v |-> <<>>, s |-> ""],
    R("color", <<k>>), R("color", <<256>>), R("color", <<-7>>), R("color", <<0>>), R("color", <<257>>), R("mode", <<0>>), R("mode", <<1>>), R("base", Nums(k, 2)), R("unknown", <<>>)}
Init == recs = <<>> /\ st = Begin
Next == Len(recs) < MaxRecs /\ st.err = "" /\ \E r \in Alphabet(Len(recs) + 1) : recs' = Append(recs, r) /\ st' = Rec1(st, r)
Spec == Init /\ [][Next]_vars

(* ---- the properties, on the model *)
Drawn == {"line", "line3", "linext", "linext3", "point", "circle", "arc", "solid", "trace", "tracext", "face", "polyline", "vertex", "seqend"}
Counted == st.err = "" => Len(st.flat) = Cardinality({k \in 1..Len(recs) : recs[k].r \in Drawn})      \* one entity each
InForce == st.err = "" => \A k \in 1..Len(st.flat) :
             LET ix == CHOOSE i \in 1..Len(recs) : recs[i].r \in Drawn /\ Cardinality({j \in 1..i : recs[j].r \in Drawn}) = k
                 cs == {j \in 1..ix : recs[j].r = "color"}
             IN st.flat[k].col = IF cs = {} THEN 256 ELSE recs[CHOOSE j \in cs : \A i \in cs : i <= j].v[1]
Base1 == Cardinality({k \in 1..Len(recs) : recs[k].r = "base"}) > 1 => st.err # ""
Joined == \A k \in 2..Len(st.flat) : recs[Len(recs)].r = "linext" /\ k = Len(st.flat) /\ st.flat[k - 1].t = "LINE" => SubSeq(st.flat[k].v, 1, 3) = SubSeq(st.flat[k - 1].v, 4, 6)
Append1(line) == Serialize(line \o "\n", OutFile, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Emit == Append1(ToJson([recs |-> recs, int |-> Modes(Begin, recs), want |-> Result(st)]))
=============================================================================
