-------------------------------- MODULE Encoding --------------------------------
(* How the strings of a file are decoded.  The reader starts with the encoding the caller names and goes over
   to UTF-8 at the point where the header says that the version is 2007 or later. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxStr, OutFile
VARIABLES named,     \* class of the encoding that the caller names
          file,      \* strings and version so far: [k, loc, txt, dec, esc]
          dec,       \* decoder in force
          version    \* "" before the version is stated
vars == <<named, file, dec, version>>
Named == {"latin1", "utf8", "single", "multi"}
Locs == <<"hdr", "cls", "lay", "sty", "blk", "txt", "xd", "obj">>        \* in the order of a file
Old == {"AC1009", "AC1015", "AC1018", "AC9999"}                            \* an unknown version counts as an old one
New == {"AC1021", "AC1024", "AC1032"}
Texts == {"ascii", "native", "utf8", "esc", "caret", "mixed", "byte"}          \* how the author of the file wrote the string
Place(l) == CHOOSE k \in 1..Len(Locs) : Locs[k] = l
At == IF file = <<>> THEN 1 ELSE IF file[Len(file)].k = "ver" THEN 1 ELSE Place(file[Len(file)].loc)
Strs == Cardinality({k \in 1..Len(file) : file[k].k = "str"})
Init == named \in Named /\ file = <<>> /\ dec = "named" /\ version = ""
Str == /\ Strs < MaxStr
       /\ \E l \in {Locs[k] : k \in At..Len(Locs)}, t \in Texts :
            \* \U+XXXX stands for a character except in UTF-8; unspecified where the caller names UTF-8 for an old file
            LET e == IF dec = "utf8" THEN "no" ELSE IF named = "utf8" THEN "any" ELSE "yes"
            IN file' = Append(file, [k |-> "str", loc |-> l, txt |-> t, dec |-> dec, esc |-> e, v |-> ""])
       /\ UNCHANGED <<named, dec, version>>
Ver == /\ version = "" /\ At = 1
       /\ \E v \in Old \cup New : /\ version' = v /\ dec' = (IF v \in New THEN "utf8" ELSE dec)
                                   /\ file' = Append(file, [k |-> "ver", loc |-> "hdr", txt |-> "", dec |-> dec', esc |-> "", v |-> v])
       /\ UNCHANGED named
Next == Str \/ Ver
Spec == Init /\ [][Next]_vars
(* ---- properties on the model *)
Stated(k) == {j \in 1..(k - 1) : file[j].k = "ver" /\ file[j].v \in New} # {}
Right == \A k \in 1..Len(file) : file[k].k = "str" => (file[k].dec = "utf8" <=> Stated(k))
OnlyForward == \A j, k \in 1..Len(file) : (j < k /\ file[j].dec = "utf8") => file[k].dec = "utf8"
Append1(line) == Serialize(line \o "\n", OutFile, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Emit == IF Strs = 0 THEN TRUE ELSE Append1(ToJson([named |-> named, file |-> file]))
=============================================================================
