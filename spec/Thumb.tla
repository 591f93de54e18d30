-------------------------------- MODULE Thumb --------------------------------
(* The preview image of a drawing.  In a file it is a device independent bitmap without its file
   header, cut into pieces.  Reading puts the header back; for that it works out where the pixels
   begin from what the bitmap says about itself.
   Two ways in: an image of the caller is written and read back, or a bitmap written by another
   program, of any of the usual layouts, is read.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Sizes, OutFile

VARIABLES step, src, dib, pieces, back
vars == <<step, src, dib, pieces, back>>

Types == {"L8", "Rgb8", "Rgba8"}
\* what the picture shows: anything, one color, or a part in one color
Fills == {"noise", "dark", "light", "half"}
Vers == {1, 13, 14, 15, 16, 17, 18, 21}
None == [k |-> "none"]
Min(a, b) == IF a < b THEN a ELSE b
Pow2(n) == IF n = 1 THEN 2 ELSE IF n = 4 THEN 16 ELSE IF n = 8 THEN 256 ELSE 0
Stride(w, bpp) == ((w * bpp + 31) \div 32) * 4
(* a bitmap: header length, bits per pixel, colors named in the header, colors in the palette *)
Dib(h, bpp, clr, pal, w, ht) == [hdr |-> h, bpp |-> bpp, clr |-> clr, pal |-> pal, w |-> w, h |-> ht, len |-> h + 4 * pal + Stride(w, bpp) * ht]
OfImage(t, w, h) == CASE t = "L8" -> Dib(40, 8, 256, 256, w, h) [] t = "Rgb8" -> Dib(40, 24, 0, 0, w, h) [] t = "Rgba8" -> Dib(108, 32, 0, 0, w, h)
(* the pieces of n bytes *)
RECURSIVE Cut(_, _)
Cut(n, p) == IF n = 0 THEN <<>> ELSE IF n <= p THEN <<n>> ELSE <<p>> \o Cut(n - p, p)
Cap == 128

Init == step = "start" /\ src = None /\ dib = None /\ pieces = <<>> /\ back = None
PickImage == step = "start" /\ \E t \in Types, w \in Sizes, h \in Sizes, v \in Vers, b \in BOOLEAN, f \in Fills :
    /\ f # "noise" => v \in {15, 16, 21}
    /\ src' = [k |-> "image", t |-> t, w |-> w, h |-> h, ver |-> v, bin |-> b, fill |-> f]
    /\ step' = "chosen" /\ UNCHANGED <<dib, pieces, back>>
PickNone == step = "start" /\ \E v \in Vers, b \in BOOLEAN : src' = [k |-> "none", ver |-> v, bin |-> b] /\ step' = "chosen" /\ UNCHANGED <<dib, pieces, back>>
Colors(bpp) == IF bpp = 1 THEN {0, 2} ELSE IF bpp = 4 THEN {0, 2, 7, 16} ELSE IF bpp = 8 THEN {0, 1, 100, 256} ELSE {0, 5, 256}   \* true color bitmaps may suggest a palette
PickBitmap == step = "start" /\ \E hd \in {40, 52, 56, 108, 124}, bpp \in {1, 4, 8, 16, 24, 32}, w \in Sizes, h \in {1, 3}, p \in {1, 7, 128, 254}, b \in BOOLEAN, td \in BOOLEAN : \E c \in Colors(bpp) :
    /\ (td \/ hd \in {52, 56} => p = 128)
    /\ src' = [k |-> "bitmap", ver |-> 16, bin |-> b, down |-> td]    \* down: the top row comes first
    /\ dib' = Dib(hd, bpp, c, IF c = 0 THEN Pow2(bpp) ELSE c, w, h)
    /\ pieces' = Cut(dib'.len, p)
    /\ step' = "written" /\ UNCHANGED back
(* only files of version 2000 and later hold a preview *)
Save == step = "chosen" /\ step' = "written" /\ UNCHANGED <<src, back>> /\
        IF src.k = "image" /\ src.ver >= 16 THEN dib' = OfImage(src.t, src.w, src.h) /\ pieces' = Cut(dib'.len, Cap)
        ELSE dib' = None /\ pieces' = <<>>
(* where the pixels begin, told from the bitmap's header alone *)
Begins(hdr, bpp, clr) == 14 + hdr + 4 * (IF clr = 0 THEN Pow2(bpp) ELSE clr)
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Load == step = "written" /\ step' = "read" /\ UNCHANGED <<src, dib, pieces>> /\
        back' = IF pieces = <<>> THEN None ELSE [k |-> "image", w |-> dib.w, h |-> dib.h, at |-> Begins(dib.hdr, dib.bpp, dib.clr), file |-> 14 + Sum(pieces)]
(* a header that lies: whatever comes of it, it is an image, no image or an error *)
Wild == {-2147483647, -1000, -14, -1, 0, 1, 12, 35, 36, 40, 41, 108, 2147483633, 2147483647}
PickWild == step = "start" /\ \E hd \in Wild, c \in Wild, w \in {1, 2147483647, -1, 0}, h \in {1, 0, -1, -2147483647}, b \in {0, 7, 8, 32}, n \in {0, 3, 4, 35, 36, 40, 400} :
    /\ hd \notin {40, 108} => w = 1 /\ h = 1 /\ b = 8
    /\ src' = [k |-> "wild", ver |-> 16, bin |-> FALSE]
    /\ dib' = [hdr |-> hd, bpp |-> b, clr |-> c, w |-> w, h |-> h, len |-> n]
    /\ step' = "wild" /\ UNCHANGED <<pieces, back>>
LoadWild == step = "wild" /\ step' = "read" /\ back' \in {[k |-> "error"], None, [k |-> "some"]} /\ UNCHANGED <<src, dib, pieces>>
Next == PickWild \/ LoadWild \/ PickImage \/ PickNone \/ PickBitmap \/ Save \/ Load
Spec == Init /\ [][Next]_vars

(* ---- the properties, on the model *)
Gated == step = "read" /\ src.k # "wild" => (back.k = "image") = (src.k = "bitmap" \/ (src.k = "image" /\ src.ver >= 16))
Placed == step = "read" /\ back.k = "image" => back.at = 14 + dib.hdr + 4 * dib.pal /\ back.file = back.at + Stride(dib.w, dib.bpp) * dib.h
Whole == \A k \in 1..Len(pieces) : pieces[k] > 0 /\ (k < Len(pieces) => pieces[k] = pieces[1])
Same == step = "read" /\ src.k = "image" /\ back.k = "image" => back.w = src.w /\ back.h = src.h

Append1(line) == Serialize(line \o "\n", OutFile, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Emit == step = "wild" \/ (step = "read" /\ src.k # "wild") => Append1(ToJson([src |-> src, dib |-> dib, pieces |-> pieces, back |-> back]))
=============================================================================
