------------------------------- MODULE Numbers -------------------------------
(* Numbers, booleans, byte strings, handles and dates in files.
   Numbers are sequences of decimal digits (or hexadecimal digits), so nothing here is limited by
   the checker's own integers.  A value is put under a group code, written into a text or binary
   file, and read back; the group code alone decides how it is written and read.               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS Deep,     \* FALSE: boundary values; TRUE: more of them
          OutFile

VARIABLES item, wire, back, phase
vars == <<item, wire, back, phase>>

(* ---- what kind of value a group code carries (0 and 999 start records and comments) *)
Kind(c) ==
    IF c \in 0..9 THEN "str" ELSE IF c \in 10..59 THEN "double" ELSE IF c \in 60..79 THEN "short" ELSE IF c \in 90..99 THEN "int"
    ELSE IF c \in (100..102) \cup {105} THEN "str" ELSE IF c \in 110..149 THEN "double" ELSE IF c \in 160..169 THEN "long"
    ELSE IF c \in 170..179 THEN "short" ELSE IF c \in 210..239 THEN "double" ELSE IF c \in 270..289 THEN "short"
    ELSE IF c \in 290..299 THEN "bool" ELSE IF c \in 300..309 THEN "str" ELSE IF c \in 310..319 THEN "bytes" ELSE IF c \in 320..369 THEN "str"
    ELSE IF c \in 370..389 THEN "short" ELSE IF c \in 390..399 THEN "str" ELSE IF c \in 400..409 THEN "short" ELSE IF c \in 410..419 THEN "str"
    ELSE IF c \in 420..429 THEN "int" ELSE IF c \in 430..439 THEN "str" ELSE IF c \in 440..459 THEN "int" ELSE IF c \in 460..469 THEN "double"
    ELSE IF c \in 470..481 THEN "str" ELSE IF c = 999 THEN "str" ELSE IF c \in 1000..1009 THEN "str" ELSE IF c \in 1010..1059 THEN "double"
    ELSE IF c \in 1060..1070 THEN "short" ELSE IF c = 1071 THEN "int" ELSE "none"
Codes == {c \in 1..1071 : Kind(c) # "none" /\ c # 999}

(* ---- decimal numbers: [neg, i, f]: digits before and after the point; no useless zeros *)
RECURSIVE TrimL(_), TrimR(_)
TrimL(q) == IF Len(q) > 1 /\ Head(q) = 0 THEN TrimL(Tail(q)) ELSE q
TrimR(q) == IF q # <<>> /\ q[Len(q)] = 0 THEN TrimR(SubSeq(q, 1, Len(q) - 1)) ELSE q
Zeros(n) == [k \in 1..n |-> 0]
\* digits D with the point moved: value 0.D * 10^e
Num(neg, D, e) ==
    LET i == IF e <= 0 THEN <<0>> ELSE IF e >= Len(D) THEN D \o Zeros(e - Len(D)) ELSE SubSeq(D, 1, e)
        f == IF e <= 0 THEN Zeros(0 - e) \o D ELSE IF e >= Len(D) THEN <<>> ELSE SubSeq(D, e + 1, Len(D))
    IN [neg |-> neg, i |-> TrimL(i), f |-> TrimR(f)]
\* add one in the last place of a digit sequence; may grow by one digit
RECURSIVE Inc(_)
Inc(q) == IF q = <<>> THEN <<1>> ELSE IF q[Len(q)] < 9 THEN [q EXCEPT ![Len(q)] = @ + 1] ELSE Append(Inc(SubSeq(q, 1, Len(q) - 1)), 0)
Places == 12
Tie(x) == Len(x.f) = Places + 1 /\ x.f[Places + 1] = 5
\* text files keep twelve decimal places
Rounded(x) ==
    IF Len(x.f) <= Places THEN x ELSE
    LET n == Len(x.i)  all == x.i \o SubSeq(x.f, 1, Places)
        r == IF x.f[Places + 1] >= 5 THEN Inc(all) ELSE all
        m == Len(r) - Places
    IN [neg |-> x.neg, i |-> TrimL(SubSeq(r, 1, m)), f |-> TrimR(SubSeq(r, m + 1, Len(r)))]
\* beyond sixteen digits the file shows the digits of the nearest double; those are not predicted ("sure" below)
Big(x) == Len(x.i) >= 5                    \* from here on twelve places tell neighbouring doubles apart
Digit(d) == SubSeq("0123456789ABCDEF", d + 1, d + 1)
RECURSIVE Str(_)
Str(q) == IF q = <<>> THEN "" ELSE Digit(Head(q)) \o Str(Tail(q))
TextOf(x) == (IF x.neg THEN "-" ELSE "") \o Str(x.i) \o "." \o (IF x.f = <<>> THEN "0" ELSE Str(x.f))

(* ---- the values *)
Patterns == {<<1>>, <<5>>, <<9>>, <<1, 5>>, <<2, 5>>, <<9, 9, 9>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5>>, <<9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9>>,
             <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>, <<3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8, 9, 7, 9>>, <<4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 9>>, <<1, 2, 5, 0, 0, 0, 0, 0, 0, 0, 0, 3>>}
            \cup (IF Deep THEN {<<a, b>> : a \in 1..9, b \in 1..9} \cup {<<a, 0, 0, 0, b, 0, 0, 9>> : a \in {1, 7, 9}, b \in {0, 4, 5}} ELSE {})
Exps == (0 - 14)..16
Doubles == {Num(n, D, e) : n \in BOOLEAN, D \in Patterns, e \in Exps} \cup {[neg |-> n, i |-> <<0>>, f |-> <<>>] : n \in BOOLEAN}
\* integers as decimal text
Ints(kind) == CASE kind = "short" -> {"0", "1", "-1", "2", "7", "10", "99", "100", "127", "128", "-128", "-129", "255", "256", "257", "999", "-999", "12345", "-12345", "32766", "32767", "-32767", "-32768"}
                [] kind = "int" -> {"0", "1", "-1", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "16777215", "16777216", "16777217", "99999999", "999999999", "-123456789", "2147483646", "2147483647", "-2147483647", "-2147483648"}
                [] kind = "long" -> {"0", "1", "-1", "255", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9007199254740991", "9007199254740992", "9007199254740993", "-9007199254740993", "1234567890123456789", "9223372036854775806", "9223372036854775807", "-9223372036854775807", "-9223372036854775808"}
                [] kind = "bool" -> {"0", "1"}
HexPatterns == {<<1>>, <<10>>, <<15>>, <<1, 0>>, <<15, 15>>, <<1, 2, 3>>, <<15, 0, 0, 15>>, <<10, 11, 12, 13, 14, 15>>, <<1, 0, 0, 0, 0, 0, 0, 0>>, <<7, 15, 15, 15, 15, 15, 15, 15>>, <<8, 0, 0, 0, 0, 0, 0, 0>>, <<15, 15, 15, 15, 15, 15, 15, 15>>,
                <<1, 0, 0, 0, 0, 0, 0, 0, 0>>, <<9, 8, 7, 6, 5, 4, 3, 2, 1, 0, 15>>, <<7, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15>>, <<8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15>>,
                <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 0>>}
ByteLens == {0, 1, 2, 3, 16, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 600}
\* dates: days since 1900-01-01 and seconds of the day
Days == {0, 1, 30, 31, 59, 365, 366, 36523, 36524, 36525, 40000, 43829, 45000, 45292, 46000, 73049} \cup (IF Deep THEN {1000 * k : k \in 1..110} ELSE {})
Secs == {0, 1, 59, 60, 3599, 3600, 21600, 43199, 43200, 43201, 64800, 86398, 86399} \cup (IF Deep THEN {997 * k : k \in 1..86} ELSE {})
Spans == {0, 1, 59, 60, 3600, 86399, 86400, 86401, 31536000, 2147483647}
Julian == 2415021     \* number of 1900-01-01

Items == {[k |-> "double", x |-> x] : x \in Doubles}
         \cup UNION {{[k |-> kind, x |-> t] : t \in Ints(kind)} : kind \in {"short", "int", "long", "bool"}}
         \cup {[k |-> "handle", x |-> h] : h \in HexPatterns}
         \cup {[k |-> "bytes", x |-> n] : n \in ByteLens}
         \cup {[k |-> "date", x |-> <<d, s>>] : d \in Days, s \in Secs}
         \cup {[k |-> "span", x |-> s] : s \in Spans}
         \cup {[k |-> "code", x |-> c] : c \in Codes}

(* ---- writing and reading *)
Limit == 255                                \* bytes in one chunk of a binary file
RECURSIVE Chunks(_)
Chunks(n) == IF n <= Limit THEN <<n>> ELSE <<Limit>> \o Chunks(n - Limit)
Sum(q) == FoldSeq(LAMBDA a, b : a + b, 0, q)
TextWire(it) == CASE it.k = "double" -> Rounded(it.x) [] it.k = "date" -> <<it.x[1] + Julian, it.x[2]>> [] OTHER -> it.x
BinWire(it) == CASE it.k = "bytes" -> Chunks(it.x) [] it.k = "date" -> <<it.x[1] + Julian, it.x[2]>> [] OTHER -> it.x
TextBack(it, w) == IF it.k = "date" THEN <<w[1] - Julian, w[2]>> ELSE w
BinBack(it, w) == CASE it.k = "bytes" -> Sum(w) [] it.k = "date" -> <<w[1] - Julian, w[2]>> [] OTHER -> w

Init == item = [k |-> "none", x |-> 0] /\ wire = <<>> /\ back = 0 /\ phase = "start"
Choose == phase = "start" /\ item' \in Items /\ phase' = "value" /\ UNCHANGED <<wire, back>>
Save == phase = "value" /\ wire' \in {<<"text", TextWire(item)>>, <<"binary", BinWire(item)>>} /\ phase' = "file" /\ UNCHANGED <<item, back>>
Load == phase = "file" /\ back' = (IF wire[1] = "text" THEN TextBack(item, wire[2]) ELSE BinBack(item, wire[2])) /\ phase' = "read" /\ UNCHANGED <<item, wire>>
Next == Choose \/ Save \/ Load
Spec == Init /\ [][Next]_vars

(* ---- properties *)
Exact(it) == it.k # "double" \/ Len(it.x.f) <= Places
BinaryExact == phase = "read" /\ wire[1] = "binary" => back = item.x
TextExact == phase = "read" /\ wire[1] = "text" /\ Exact(item) => back = item.x
\* otherwise what is read is the nearest number of twelve places: same sign, and it rounds to itself
TextNear == phase = "read" /\ wire[1] = "text" /\ ~Exact(item) => back = Rounded(back) /\ back = Rounded(item.x) /\ back.neg = item.x.neg
ChunksFit == phase = "file" /\ wire[1] = "binary" /\ item.k = "bytes" => \A j \in 1..Len(wire[2]) : wire[2][j] <= Limit

Out(it) == CASE it.k = "double" -> [k |-> "double", lit |-> TextOf(it.x), text |-> TextOf(Rounded(it.x)), exact |-> (Exact(it) \/ Big(it.x)), sure |-> (~Tie(it.x) /\ (Len(it.x.i) <= 3 \/ it.x.f = <<>>))]
             [] it.k = "handle" -> [k |-> "handle", lit |-> Str(it.x)]
             [] it.k = "code" -> [k |-> "code", code |-> it.x, kind |-> Kind(it.x)]
             [] it.k = "date" -> [k |-> "date", day |-> it.x[1], sec |-> it.x[2], julian |-> it.x[1] + Julian]
             [] OTHER -> [k |-> it.k, lit |-> it.x]
Append1(line) == Serialize(line \o "\n", OutFile, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Emit == phase = "value" => Append1(ToJson(Out(item)))
=============================================================================
