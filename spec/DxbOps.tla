-------------------------------- MODULE DxbOps --------------------------------
(* A DXB file is a sequence of records; some set what is in force for those that follow (number
   mode, scale, layer, color, block base), some continue the record before them.
   Numbers are counted in halves: a coordinate v means v / 2.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Begin == [int |-> TRUE, sc |-> 2, lay |-> "0", col |-> 256, lp |-> <<0, 0, 0>>, tp |-> <<0, 0, 0, 0>>, base |-> <<>>, flat |-> <<>>, err |-> ""]
(* integers are multiplied by the scale factor, floats are taken as they are *)
N(st, v) == IF st.int THEN v * st.sc ELSE v
NN(st, q) == [k \in 1..Len(q) |-> N(st, q[k])]
Bad(st, why) == [st EXCEPT !.err = why]
Put(st, t, v) == [st EXCEPT !.flat = Append(@, [t |-> t, lay |-> st.lay, col |-> st.col, v |-> v, bulge |-> 0, width |-> <<0, 0>>])]
LastOf(q) == q[Len(q)]
IsVertex(st) == st.flat # <<>> /\ LastOf(st.flat).t = "VERTEX"

(* r = [r |-> kind, v |-> numbers, s |-> layer name] *)
Rec1(st, r) ==
    IF st.err # "" THEN st
    ELSE CASE r.r \in {"line", "line3"} -> [Put(st, "LINE", NN(st, r.v)) EXCEPT !.lp = SubSeq(NN(st, r.v), 4, 6)]
      [] r.r = "linext" -> LET p == NN(st, r.v) \o <<0>> IN [Put(st, "LINE", st.lp \o p) EXCEPT !.lp = p]
      [] r.r = "linext3" -> LET p == NN(st, r.v) IN [Put(st, "LINE", st.lp \o p) EXCEPT !.lp = p]
      [] r.r = "point" -> Put(st, "POINT", NN(st, r.v))
      [] r.r = "circle" -> Put(st, "CIRCLE", NN(st, r.v))
      [] r.r = "arc" -> Put(st, "ARC", NN(st, SubSeq(r.v, 1, 3)) \o SubSeq(r.v, 4, 5))      \* angles are not scaled
      [] r.r = "solid" -> Put(st, "SOLID", NN(st, r.v))
      [] r.r = "trace" -> [Put(st, "TRACE", NN(st, r.v)) EXCEPT !.tp = SubSeq(NN(st, r.v), 5, 8)]
      [] r.r = "tracext" -> LET p == NN(st, r.v) IN [Put(st, "TRACE", st.tp \o p) EXCEPT !.tp = p]
      [] r.r = "face" -> Put(st, "3DFACE", NN(st, r.v))
      [] r.r = "polyline" -> Put(st, "POLYLINE", <<IF r.v[1] = 0 THEN 0 ELSE 1>>)      \* anything but 0 closes it
      [] r.r = "vertex" -> Put(st, "VERTEX", NN(st, r.v))
      [] r.r = "seqend" -> Put(st, "SEQEND", <<>>)
      [] r.r = "bulge" -> IF IsVertex(st) THEN [st EXCEPT !.flat[Len(st.flat)].bulge = r.v[1]] ELSE Bad(st, "no vertex")
      [] r.r = "width" -> IF IsVertex(st) THEN [st EXCEPT !.flat[Len(st.flat)].width = NN(st, r.v)] ELSE Bad(st, "no vertex")
      [] r.r = "scale" -> [st EXCEPT !.sc = r.v[1]]
      [] r.r = "layer" -> [st EXCEPT !.lay = r.s]
      [] r.r = "color" -> [st EXCEPT !.col = r.v[1]]
      [] r.r = "mode" -> [st EXCEPT !.int = r.v[1] = 0]
      [] r.r = "base" -> IF st.base = <<>> /\ st.flat = <<>> THEN [st EXCEPT !.base = NN(st, r.v)] ELSE Bad(st, "base")
      [] OTHER -> Bad(st, "unknown")
RECURSIVE Feed(_, _)
Feed(st, q) == IF q = <<>> THEN st ELSE Feed(Rec1(st, Head(q)), Tail(q))

(* vertices belong to the polyline before them, up to an end marker *)
Ent(f) == [t |-> f.t, lay |-> f.lay, col |-> f.col, v |-> f.v, bulge |-> f.bulge, width |-> f.width, sub |-> <<>>]
Sub(f) == [v |-> f.v, bulge |-> f.bulge, width |-> f.width]
RECURSIVE Run(_)
Run(q) == IF q = <<>> \/ Head(q).t # "VERTEX" THEN <<>> ELSE <<Sub(Head(q))>> \o Run(Tail(q))
Drop(q, n) == SubSeq(q, n + 1, Len(q))
RECURSIVE Gather(_)
Gather(q) == IF q = <<>> THEN <<>>
             ELSE IF Head(q).t = "POLYLINE"
             THEN LET vs == Run(Tail(q)) rest == Drop(q, 1 + Len(vs))
                  IN <<[Ent(Head(q)) EXCEPT !.sub = vs]>> \o Gather(IF rest # <<>> /\ Head(rest).t = "SEQEND" THEN Tail(rest) ELSE rest)
             ELSE <<Ent(Head(q))>> \o Gather(Tail(q))
Result(st) == [err |-> st.err, base |-> st.base, ents |-> IF st.err = "" THEN Gather(st.flat) ELSE <<>>]

(* the integer or float form of each record: whether numbers are integers when it is read *)
RECURSIVE Modes(_, _)
Modes(st, q) == IF q = <<>> THEN <<>> ELSE <<st.int>> \o Modes(Rec1(st, Head(q)), Tail(q))
=============================================================================
