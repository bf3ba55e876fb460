------------------------------ MODULE ImageMC ------------------------------
(* Small-scope model of the image heap: every interleaving of a menu of     *)
(* calls, exhaustively (breadth first, depth Depth) or simulated; simulated  *)
(* behaviours are replayed on the real code.                                *)
EXTENDS ImageSpec, TLC, Json, FiniteSets
CONSTANTS Depth, MaxObj, Gen, Rich
VARIABLES h, hist
vars == <<h, hist>>

E(op, a, b, n, v, t, s, c, w) ==
  [op |-> op, a |-> a, b |-> b, n |-> n, v |-> v, t |-> t, s |-> s, c |-> c, w |-> w,
   f |-> [i \in 1..MaxObj |-> i], mode |-> "py", tol |-> "1e-5", alt |-> (a + b) % 4]

Wcs1 == <<"0.5", "0.25", "-0.25", "0.75", "3.0", "-2.0">>
Creations ==
  {E("newarr", 0, 0, <<1, 1, 2, 2>>, <<"1", "2", "3", "4">>, t, "", c, w) :
      t \in (IF Rich THEN {"I", "D", "F", "US"} ELSE {"I", "D"}), c \in {"T", "F"}, w \in {<<>>, Wcs1}}
  \cup {E("newsize", 0, 0, <<0, 0, 2, 1>>, <<"5">>, t, "", "F", <<>>) : t \in {"I", "S"}}
  \cup {E("newsize", 0, 0, <<0, 0, 0, 0>>, <<"0">>, "I", "", "F", <<>>)}
Unary(i) ==
  {E("copy", i, 0, <<>>, <<>>, t, "", c, <<>>) : t \in {"I", "D"}, c \in {"T", "F"}}
  \cup {E("geo", i, 0, <<>>, <<>>, "-", s, "F", <<>>) : s \in GeoOps}
  \cup {E("sub", i, 0, n, <<>>, "-", "", "F", <<>>) : n \in {<<1, 1, 2, 1>>, <<2, 1, 1, 2>>, <<1, 1, 3, 1>>}}
  \cup {E("isca", i, 0, <<>>, <<"2">>, "int", s, "F", <<>>) : s \in {"add", "sub", "mul", "and"}}
  \cup {E("isca", i, 0, <<>>, <<"2.5">>, "float", "add", "F", <<>>)}
  \cup {E("sca", i, 0, <<>>, <<"2">>, "int", s, "F", <<>>) : s \in {"add", "div"}}
  \cup {E("set", i, 0, n, <<"7">>, "-", "", "F", <<>>) : n \in {<<1, 1>>, <<2, 2>>, <<0, 0>>}}
  \cup {E("addv", i, 0, n, <<"3">>, "-", "", "F", <<>>) : n \in {<<1, 1>>, <<5, 5>>}}
  \cup {E("fill", i, 0, <<>>, <<"4">>, "-", "", "F", <<>>), E("zero", i, 0, <<>>, <<>>, "-", "", "F", <<>>),
        E("invert", i, 0, <<>>, <<>>, "-", "", "F", <<>>), E("replneg", i, 0, <<>>, <<"1">>, "-", "", "F", <<>>),
        E("resize", i, 0, <<1, 1, 2, 2>>, <<>>, "-", "", "F", <<>>), E("resize", i, 0, <<0, 0, 0, 0>>, <<>>, "-", "", "F", <<>>),
        E("shift", i, 0, <<1, -1>>, <<>>, "-", "", "F", <<>>), E("setcen", i, 0, <<0, 0>>, <<>>, "-", "", "F", <<>>),
        E("setorg", i, 0, <<1, 1>>, <<>>, "-", "", "F", <<>>), E("neg", i, 0, <<>>, <<>>, "-", "", "F", <<>>),
        E("real", i, 0, <<>>, <<>>, "-", "", "F", <<>>), E("conj", i, 0, <<>>, <<>>, "-", "", "F", <<>>),
        E("imag", i, 0, <<>>, <<>>, "-", "", "F", <<>>),
        E("getarr", i, 0, <<>>, <<>>, "-", "", "F", <<>>), E("npmut", i, 0, <<>>, <<>>, "-", "", "F", <<>>),
        E("get", i, 0, <<1, 1>>, <<>>, "-", "", "F", <<>>)}
  \cup {E("bad", i, 0, <<>>, <<>>, "-", s, "F", <<>>) : s \in {"resize_nobounds", "copyfrom_nonimage", "copy_two_places", "view"}}
Binary(i, j) ==
  {E("ibin", i, j, <<>>, <<>>, "-", s, "F", <<>>) : s \in {"add", "sub", "or"}}
  \cup {E("bin", i, j, <<>>, <<>>, "-", s, "F", <<>>) : s \in {"mul", "add", "xor"}}
  \cup {E("copyfrom", i, j, <<>>, <<>>, "-", "", "F", <<>>), E("eq", i, j, <<>>, <<>>, "-", "", "F", <<>>),
        E("setsub", i, j, <<1, 1, 2, 1>>, <<>>, "-", "", "F", <<>>)}
Ims == {i \in 1..Len(h) : h[i].k = "im"}
Menu == (IF Len(h) < MaxObj THEN Creations ELSE {})
        \cup UNION {Unary(i) : i \in Ims} \cup UNION {Binary(i, j) : i \in Ims, j \in Ims}

Init == h = <<>> /\ hist = <<>>
Emit == Gen /\ Len(hist) = Depth /\ PrintT("HIST " \o ToJson(hist)) /\ h' = h /\ hist' = Append(hist, "end")
Next == Emit \/
  /\ Len(hist) < Depth
  /\ \E ev \in Menu :
       LET r == Do(h, ev) IN
       /\ r.err # "?" /\ Len(r.h) <= MaxObj
       \* keep integer images of unsigned type non-negative, everything small
       /\ \A i \in 1..Len(r.h) : \A q \in 1..Len(r.h[i].px) : Lt(Abs(r.h[i].px[q]), "1000")
       /\ h' = r.h /\ hist' = Append(hist, ev)
\* the simulator draws one call instead of enumerating them
NextGen == Emit \/
  /\ Len(hist) < Depth
  /\ \E ev \in {RandomElement(Menu)} : LET r == Do(h, ev) IN
     IF r.err = "?" \/ Len(r.h) > MaxObj
        \/ \E i \in 1..Len(r.h) : \E q \in 1..Len(r.h[i].px) : ~Lt(Abs(r.h[i].px[q]), "1000")
     THEN UNCHANGED vars ELSE h' = r.h /\ hist' = Append(hist, ev)
View == h

WellFormed == \A i \in Ims : LET m == h[i] IN
  /\ Len(m.px) = m.nx * m.ny /\ (m.def = (m.nx > 0))
  /\ \A q \in 1..Len(m.px) : NEq(Repr(m.dt, m.px[q]), m.px[q])
GeoGroup == \A i \in Ims : LET m == h[i] z == [m EXCEPT !.w = <<>>, !.const = FALSE] IN m.def =>
  /\ Geo("rot_cw", Geo("rot_ccw", m)) = z
  /\ Geo("rot_cw", Geo("rot_cw", m)) = Geo("rot_180", m)
  /\ Geo("transpose", Geo("transpose", m)) = z
  /\ Geo("flip_lr", Geo("flip_ud", m)) = Geo("rot_180", m)
  /\ Geo("flip_lr", Geo("flip_lr", m)) = z
  /\ Geo("transpose", Geo("flip_ud", m)) = Geo("flip_lr", Geo("transpose", m))
  /\ Geo("rot_cw", m) \in {Geo("flip_lr", Geo("transpose", m)), Geo("flip_ud", Geo("transpose", m))}
SubLaws == \A i \in Ims : LET m == h[i] IN m.def =>
  Sub2(m, m.x0, m.y0, m.nx, m.ny).px = m.px
ShiftLaws == \A i \in Ims : LET m == h[i] IN m.def =>
  /\ Shifted(Shifted(m, 3, -2), -3, 2).px = m.px
  /\ Shifted(Shifted(m, 3, -2), -3, 2).x0 = m.x0
  /\ WSameMap(Shifted(Shifted(m, 3, -2), -3, 2).w, m.w)
Inv == WellFormed /\ GeoGroup /\ SubLaws /\ ShiftLaws

\* a call changes at most its target; an immutable image keeps its pixels; the
\* heap only grows; a refused call changes nothing
Frame == [][LET ev == hist'[Len(hist')] r == Do(h, ev) IN
             /\ \A i \in 1..Len(h) : (i # ev.a => h'[i] = h[i])
             /\ \A i \in 1..Len(h) : (h[i].k = "im" /\ h[i].const => h'[i].px = h[i].px)
             /\ \A i \in 1..Len(h) : (h[i].k = "arr" => h'[i] = h[i])
             /\ Len(h') >= Len(h)
             /\ (r.err # "" => h' = h)]_vars
=============================================================================
