------------------------------- MODULE RecOps -------------------------------
(* Vocabulary of the record catalogue.

   A record kind is  [key, tstr, min, max, nowire, noread, fields, wr, rd]:
     fields  the data a record holds: [n name, ks component names, multi, priv, d default,
             c the values the model assigns].  A value is a sequence of elements (one for a
             plain field), an element a sequence of components, a component <<v, w>>:
             the abstract value and the text of the pair that carries it.
     wr      the layout: which pairs the record consists of, in which file versions
     rd      which field (and component) a pair with a given group code is taken for        *)
EXTENDS Naturals, Integers, Sequences, TLC

S(x) == <<x, x>>

(* layout items; mn..mx are file versions (index into AcadVersion, 1 = Version_1_0 .. 21 = R2018) *)
M(c, w, mn, mx) == [t |-> "const", c |-> c, w |-> w, v |-> w, mn |-> mn, mx |-> mx]
MV(c, w, v, mn, mx) == [t |-> "const", c |-> c, w |-> w, v |-> v, mn |-> mn, mx |-> mx]
N(c, f, ty, mn, mx) == [t |-> "count", c |-> c, f |-> f, ty |-> ty, mn |-> mn, mx |-> mx]
X(f, cs, mn, mx, nd, cond) == [t |-> "field", f |-> f, cs |-> cs, mn |-> mn, mx |-> mx, nd |-> nd, cond |-> cond, var |-> ""]
W(f, codes, mn, mx, nd, cond) ==
    X(f, [i \in 1..Len(codes) |-> <<codes[i], i, 1, "">>], mn, mx, nd, cond)
V(name, f, codes, mn, mx, nd) == [W(f, codes, mn, mx, nd, 0) EXCEPT !.var = name]
H(c, mn, mx) == [t |-> "handle", c |-> c, mn |-> mn, mx |-> mx]
D(ty, a, b, c) == [t |-> "dimtype", f |-> ty, a |-> a, b |-> b, cc |-> c, mn |-> 1, mx |-> 21]
L(f, on) == [t |-> "layercolor", f |-> f, on |-> on, mn |-> 1, mx |-> 21]
=============================================================================
