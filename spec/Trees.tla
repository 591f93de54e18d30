-------------------------------- MODULE Trees --------------------------------
(* Application data of an item: a sequence of named lists of values, which may contain lists
   (extended data) or named groups (extension groups) in turn.  A file holds it flat, with opening
   and closing marks.                                                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS What,      \* "x": extended data, "ext": extension groups
          Leaves,    \* kinds of values in use
          MaxTok, MaxDepth, OutFile

VARIABLES open,      \* the frames being filled, outermost first; a frame is [n, q]
          done,      \* finished named lists
          n, ver, wire, phase
vars == <<open, done, n, ver, wire, phase>>

Leaf(k, i) == [leaf |-> k, i |-> i]
Group(name, q) == [name |-> name, q |-> q]
IsLeaf(x) == "leaf" \in DOMAIN x

(* ---- building *)
Init == open = <<>> /\ done = <<>> /\ n = 0 /\ ver = 0 /\ wire = <<>> /\ phase = "build"
Top == open[Len(open)]
AddTo(q, x) == [q EXCEPT ![Len(q)].q = Append(@, x)]
Step == phase = "build" /\ n < MaxTok /\ n' = n + 1 /\ UNCHANGED <<ver, wire, phase>>
Begin == Step /\ open = <<>> /\ open' = <<Group("A" \o ToString(Len(done)), <<>>)>> /\ UNCHANGED done
AddLeaf == Step /\ open # <<>> /\ \E k \in Leaves : open' = AddTo(open, Leaf(k, n)) /\ UNCHANGED done
Down == Step /\ open # <<>> /\ Len(open) < MaxDepth /\ open' = Append(open, Group(IF What = "x" THEN "" ELSE "G" \o ToString(n), <<>>)) /\ UNCHANGED done
Up == phase = "build" /\ Len(open) > 1 /\ open' = AddTo(SubSeq(open, 1, Len(open) - 1), Top) /\ UNCHANGED <<done, n, ver, wire, phase>>
End == phase = "build" /\ Len(open) = 1 /\ done' = Append(done, Top) /\ open' = <<>> /\ UNCHANGED <<n, ver, wire, phase>>

(* ---- the flat form *)
Carries(v) == IF What = "x" THEN v >= 16 ELSE v >= 15
RECURSIVE Flat(_), FlatAll(_)
\* extension groups without items are not written
Flat(x) == IF IsLeaf(x) THEN <<[t |-> "leaf", k |-> x.leaf, i |-> x.i]>>
           ELSE IF What = "ext" /\ x.q = <<>> THEN <<>>
           ELSE <<[t |-> "open", name |-> x.name]>> \o FlatAll(x.q) \o <<[t |-> "close"]>>
FlatAll(q) == IF q = <<>> THEN <<>> ELSE Flat(Head(q)) \o FlatAll(Tail(q))
\* the outermost list of extended data is ended by the next one, not by a mark
Outer(x) == IF What = "x" THEN <<[t |-> "app", name |-> x.name]>> \o FlatAll(x.q) ELSE Flat(x)
RECURSIVE OuterAll(_)
OuterAll(q) == IF q = <<>> THEN <<>> ELSE Outer(Head(q)) \o OuterAll(Tail(q))
Save == phase = "build" /\ open = <<>> /\ \E v \in {13, 14, 15, 16, 21} : ver' = v /\ wire' = (IF Carries(v) THEN OuterAll(done) ELSE <<>>) /\ phase' = "file" /\ UNCHANGED <<open, done, n>>
Next == Begin \/ AddLeaf \/ Down \/ Up \/ End \/ Save
Spec == Init /\ [][Next]_vars

(* ---- reading with a stack of open groups *)
RECURSIVE Rd(_, _, _)
Rd(q, st, out) ==
    IF q = <<>> THEN (IF st = <<>> THEN out ELSE Append(out, st[1]))
    ELSE LET h == Head(q)  r == Tail(q) IN
    CASE h.t = "app" -> Rd(r, <<Group(h.name, <<>>)>>, IF st = <<>> THEN out ELSE Append(out, st[1]))
      [] h.t = "open" -> Rd(r, Append(st, Group(h.name, <<>>)), out)
      [] h.t = "close" -> IF Len(st) = 1 THEN Rd(r, <<>>, Append(out, st[1])) ELSE Rd(r, AddTo(SubSeq(st, 1, Len(st) - 1), st[Len(st)]), out)
      [] OTHER -> Rd(r, AddTo(st, Leaf(h.k, h.i)), out)
(* groups that hold nothing are not kept *)
RECURSIVE Prune(_)
Holds(x) == IsLeaf(x) \/ x.q # <<>>
PruneG(x) == IF IsLeaf(x) THEN x ELSE Group(x.name, Prune(x.q))
Prune(q) == SelectSeq([k \in 1..Len(q) |-> PruneG(q[k])], Holds)
Same(a, b) == IF What = "x" THEN a = b ELSE Prune(a) = Prune(b)
RoundTrip == phase = "file" /\ Carries(ver) => Same(Rd(wire, <<>>, <<>>), done)
Absent == phase = "file" /\ ~Carries(ver) => wire = <<>>
Balanced == phase = "file" => Cardinality({k \in 1..Len(wire) : wire[k].t = "open"}) = Cardinality({k \in 1..Len(wire) : wire[k].t = "close"})

Append1(line) == Serialize(line \o "\n", OutFile, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Emit == phase = "build" /\ open = <<>> /\ done # <<>> => Append1(ToJson([what |-> What, from |-> IF What = "x" THEN 16 ELSE 15, trees |-> done]))
=============================================================================
