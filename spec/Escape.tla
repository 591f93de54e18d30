------------------------------- MODULE Escape -------------------------------
(* How strings travel through a file.  Characters are code points.
   Text files: control characters and ^ become ^-sequences; before R2007 everything beyond ASCII
   becomes \U+XXXX (two of them beyond the basic plane), and text that looks like such a sequence is
   protected.  Binary files: the same, in the opposite order.                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS MaxLen,   \* number of pieces of the strings
          Vers,     \* file versions
          Sweep,    \* every character once instead
          OutFile

VARIABLES s, w, v, form, phase
vars == <<s, w, v, form, phase>>

R2007 == 18
A(c) == CHOOSE i \in 32..126 : SubSeq(" !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~", i - 31, i - 31) = c
T(str) == [i \in 1..Len(str) |-> A(SubSeq(str, i, i))]
Bs == 92
Caret == 94
HexDigits == T("0123456789ABCDEF")
IsHex(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
Hex4(n) == <<HexDigits[1 + (n \div 4096)], HexDigits[1 + ((n \div 256) - 16 * (n \div 4096))],
             HexDigits[1 + ((n \div 16) - 16 * (n \div 256))], HexDigits[1 + (n - 16 * (n \div 16))]>>
Seq4(n) == <<Bs>> \o T("U+") \o Hex4(n)
Units(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + ((c - 65536) \div 1024), 56320 + (c - 65536) - 1024 * ((c - 65536) \div 1024)>>

(* ---- writing *)
LooksEscaped(q) == Len(q) >= 7 /\ q[1] = Bs /\ q[2] = A("U") /\ q[3] = A("+") /\ \A i \in 4..7 : IsHex(q[i])
RECURSIVE EscU(_)
EscU(q) == IF q = <<>> THEN <<>> ELSE
    LET c == Head(q) IN
    (IF c >= 128 THEN (LET u == Units(c) IN IF Len(u) = 1 THEN Seq4(u[1]) ELSE Seq4(u[1]) \o Seq4(u[2]))
     ELSE IF LooksEscaped(q) THEN Seq4(Bs) ELSE <<c>>) \o EscU(Tail(q))
RECURSIVE EscC(_)
EscC(q) == IF q = <<>> THEN <<>> ELSE
    LET c == Head(q) IN (IF c < 32 THEN <<Caret, c + 64>> ELSE IF c = Caret THEN <<Caret, 32>> ELSE <<c>>) \o EscC(Tail(q))
Write(q, ver, f) == IF ver >= R2007 THEN EscC(q) ELSE IF f = "text" THEN EscU(EscC(q)) ELSE EscC(EscU(q))

(* ---- reading *)
RECURSIVE UnC(_)
UnC(q) == IF q = <<>> THEN <<>> ELSE
    IF Head(q) # Caret THEN <<Head(q)>> \o UnC(Tail(q))
    ELSE IF Len(q) = 1 THEN <<>>
    ELSE LET c == q[2] IN (IF c \in 64..95 THEN <<c - 64>> ELSE IF c = 32 THEN <<Caret>> ELSE <<c>>) \o UnC(SubSeq(q, 3, Len(q)))
EscAt(q) == LooksEscaped(q)
UnitAt(q) == HexVal(q[4]) * 4096 + HexVal(q[5]) * 256 + HexVal(q[6]) * 16 + HexVal(q[7])
Hi(u) == u \in 55296..56319
Lo(u) == u \in 56320..57343
RECURSIVE UnU(_)
UnU(q) == IF q = <<>> THEN <<>> ELSE
    IF ~EscAt(q) THEN <<Head(q)>> \o UnU(Tail(q))
    ELSE LET u == UnitAt(q)  r == SubSeq(q, 8, Len(q)) IN
         IF Hi(u) /\ EscAt(r) /\ Lo(UnitAt(r)) THEN <<65536 + (u - 55296) * 1024 + (UnitAt(r) - 56320)>> \o UnU(SubSeq(r, 8, Len(r)))
         ELSE IF Hi(u) \/ Lo(u) THEN <<A("?")>> \o UnU(r)
         ELSE <<u>> \o UnU(r)
Read(q, ver, f) == IF ver >= R2007 THEN UnC(q) ELSE IF f = "text" THEN UnC(UnU(q)) ELSE UnU(UnC(q))

(* ---- strings *)
Pieces == {T("a"), T(" "), <<Bs>>, T("\\U+0041"), T("\\U+00e9"), T("\\U+12"), T("U+0041"), T("\\U+D83D"), T("\\P"), T("\\\\"), T("x\\U+20ACy"), <<Caret>>, T("^J"), T("^ "), T("@Z"), T("^\\U+0041"),
           <<0>>, <<9>>, <<28>>, <<30>>, <<31>>, <<27, 91>>, <<127>>, <<128>>, <<160>>, <<233>>, <<255, 254>>, <<1071>>, <<8364>>, <<20320, 22909>>, <<65279>>, <<65533>>, <<128512>>, <<66560>>, <<1114109>>,
           T("abc"), T("%%d"), T("{}"), T("0041"), T("\\")}
\* every character there is (line breaks aside): the ones below 256 alone and in pairs, the others in runs
Valid(c) == c \notin {10, 13} /\ (c < 55296 \/ c > 57343) /\ c < 1114112
Span(c, n) == SelectSeq([i \in 1..n |-> c + i - 1], LAMBDA x : Valid(x))
Runs == {T("a") \o Span(c, 1) \o T("b") : c \in 0..255} \cup {Span(c, 2) : c \in 0..255} \cup {Span(64 * k, 64) : k \in 4..1023} \cup {Span(65536 * k - 3, 6) : k \in 1..17} \cup {Span(128000 + 64 * k, 64) : k \in 0..16}
Forms == {"text", "binary"}
Init == s = <<>> /\ w = <<>> /\ v = 0 /\ form = "" /\ phase = "make"
Extend == phase = "make" /\ Len(w) < MaxLen /\ \E p \in (IF Sweep THEN Runs ELSE Pieces) : s' = s \o p /\ w' = Append(w, 0) /\ UNCHANGED <<v, form, phase>>
Save == phase = "make" /\ \E ver \in Vers : \E f \in Forms : v' = ver /\ form' = f /\ w' = Write(s, ver, f) /\ phase' = "file" /\ UNCHANGED s
Next == Extend \/ Save
Spec == Init /\ [][Next]_vars

RoundTrip == phase = "file" => Read(w, v, form) = s
AsciiOnly == phase = "file" /\ v < R2007 => \A i \in 1..Len(w) : w[i] < 128
NoBreaks == phase = "file" => \A i \in 1..Len(w) : w[i] >= 32

Append1(line) == Serialize(line \o "\n", OutFile, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Emit == phase = "make" => Append1(ToJson([s |-> s]))
=============================================================================
