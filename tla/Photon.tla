-------------------------------- MODULE Photon --------------------------------
(***************************************************************************)
(* Photon arrays: a fixed number of slots, each holding one photon's place, *)
(* flux, whether it counts, and up to four optional groups of numbers.      *)
(*   [t |-> "pa", x, y, f : what each slot holds, keep : which slots count, *)
(*    ch : six channels ("nan" where nothing was put), corr]                *)
(* Images that receive photons hold every pixel, row by row:                *)
(*   [t |-> "im", b |-> <<xmin, xmax, ymin, ymax>> or <<>>, dt, sc, px]     *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets

Chan == <<"dxdz", "dydz", "wavelength", "pupil_u", "pupil_v", "time">>
Chans == {Chan[i] : i \in 1..6}
Size(p) == Len(p.x)
Kept(p) == Cardinality({i \in 1..Size(p) : p.keep[i]})
All(v, n) == [i \in 1..n |-> v]
NaNs(n) == All("nan", n)
Blank(n, m) == [t |-> "pa", x |-> All("0", n), y |-> All("0", n), f |-> All("0", n), keep |-> [i \in 1..n |-> i <= m],
                ch |-> [c \in Chans |-> NaNs(n)], corr |-> FALSE]
\* the flux that counts
FluxOf(p) == [i \in 1..Size(p) |-> IF p.keep[i] THEN p.f[i] ELSE "0"]
Total(p) == NSum(FluxOf(p))
Finite(s) == \E i \in 1..Len(s) : s[i] # "nan"
Pair(c) == CASE c = "dxdz" -> "dydz" [] c = "dydz" -> "dxdz" [] c = "pupil_u" -> "pupil_v" [] c = "pupil_v" -> "pupil_u" [] OTHER -> c
HasAngles(p) == Finite(p.ch["dxdz"]) \/ Finite(p.ch["dydz"])
HasWave(p) == Finite(p.ch["wavelength"])
HasPupil(p) == Finite(p.ch["pupil_u"]) \/ Finite(p.ch["pupil_v"])
HasTime(p) == Finite(p.ch["time"])
HasCh(p, c) == CASE c \in {"dxdz", "dydz"} -> HasAngles(p) [] c \in {"pupil_u", "pupil_v"} -> HasPupil(p) [] OTHER -> Finite(p.ch[c])

Spread(v, n) == IF Len(v) = 1 THEN All(v[1], n) ELSE v
FitsIn(v, n) == Len(v) = 1 \/ Len(v) = n
Put(p, name, v) ==
  LET s == Spread(v, Size(p)) IN
  CASE name = "x" -> [p EXCEPT !.x = s] [] name = "y" -> [p EXCEPT !.y = s] [] name = "flux" -> [p EXCEPT !.f = s]
    [] OTHER -> LET q == [p EXCEPT !.ch[name] = s] o == Pair(name) IN
                \* the other half of a pair starts from zero
                IF o # name /\ Finite(s) /\ ~Finite(q.ch[o]) THEN [q EXCEPT !.ch[o] = All("0", Size(p))] ELSE q
RECURSIVE PutAll(_, _)
PutAll(p, as) == IF as = <<>> THEN p ELSE PutAll(Put(p, as[1][1], as[1][2]), SubSeq(as, 2, Len(as)))
ScaleF(p, s) == [p EXCEPT !.f = [i \in 1..Size(p) |-> Mul(@[i], s)]]
ScaleP(p, s) == [p EXCEPT !.x = [i \in 1..Size(p) |-> Mul(@[i], s)], !.y = [i \in 1..Size(p) |-> Mul(@[i], s)]]
ShiftP(p, d) == [p EXCEPT !.x = [i \in 1..Size(p) |-> Add(@[i], d[1])], !.y = [i \in 1..Size(p) |-> Add(@[i], d[2])]]
\* the number of photons changes, the flux of all together does not: each one left carries more
SetKeep(p, k) ==
  LET rank(i) == Cardinality({j \in 1..Size(p) : (p.keep[j] /\ ~p.keep[i]) \/ (p.keep[j] = p.keep[i] /\ j < i)}) + 1 IN
  [p EXCEPT !.keep = [i \in 1..Size(p) |-> rank(i) <= k], !.f = [i \in 1..Size(p) |-> Mul(@[i], Div(N(Kept(p)), N(k)))]]

(* index lists: <<"slice", start, stop, step>>, <<"int", i>>, <<"at", i...>>, <<"mask", T/F...>>; places count from 1 *)
Wrap(i, n) == IF i < 0 THEN i + n ELSE i
Clip(i, n) == IF i < 0 THEN (IF i + n < 0 THEN 0 ELSE i + n) ELSE IF i > n THEN n ELSE i
RECURSIVE Range3(_, _, _)
Range3(a, b, s) == IF a >= b THEN <<>> ELSE <<a + 1>> \o Range3(a + s, b, s)
RECURSIVE Marked(_, _)
Marked(m, i) == IF i > Len(m) THEN <<>> ELSE (IF m[i] = "T" THEN <<i>> ELSE <<>>) \o Marked(m, i + 1)
Idx(d, n) ==
  CASE d[1] = "all" -> [i \in 1..n |-> i]
    [] d[1] = "slice" -> Range3(Clip(I(d[2]), n), Clip(I(d[3]), n), I(d[4]))
    [] d[1] = "int" -> <<Wrap(I(d[2]), n) + 1>>
    [] d[1] = "at" -> [i \in 1..(Len(d) - 1) |-> Wrap(I(d[i + 1]), n) + 1]
    [] d[1] = "mask" -> Marked(SubSeq(d, 2, Len(d)), 1)
BadIdx(d, n) == d[1] = "int" /\ (I(d[2]) >= n \/ I(d[2]) < -n)
Pos(s, i) == IF \E k \in 1..Len(s) : s[k] = i THEN CHOOSE k \in 1..Len(s) : s[k] = i ELSE 0
Over(a, b, s1, s2) == [i \in 1..Len(a) |-> LET k == Pos(s1, i) IN IF k = 0 THEN a[i] ELSE b[s2[k]]]
CopyFrom(p, q, s1, s2, xy, fl, oth) ==
  LET r == IF xy \/ fl \/ oth THEN [p EXCEPT !.keep = Over(@, q.keep, s1, s2)] ELSE p
      r1 == IF xy THEN [r EXCEPT !.x = Over(@, q.x, s1, s2), !.y = Over(@, q.y, s1, s2)] ELSE r
      r2 == IF fl THEN [r1 EXCEPT !.f = Over(@, q.f, s1, s2)] ELSE r1 IN
  IF oth THEN [r2 EXCEPT !.ch = [c \in Chans |-> IF HasCh(q, c) THEN Over(r2.ch[c], q.ch[c], s1, s2) ELSE r2.ch[c]]] ELSE r2

\* photons that count pair up in order, then the rest; pm rearranges the second set
Order(p) == [k \in 1..Size(p) |-> CHOOSE i \in 1..Size(p) :
               Cardinality({j \in 1..Size(p) : (p.keep[j] /\ ~p.keep[i]) \/ (p.keep[j] = p.keep[i] /\ j < i)}) + 1 = k]
Convolve(p, q, pm) ==
  LET a == Order(p) b == Order(q) n == Size(p)
      mate(i) == b[pm[CHOOSE k \in 1..n : a[k] = i]] IN
  [p EXCEPT !.x = [i \in 1..n |-> Add(p.x[i], q.x[mate(i)])], !.y = [i \in 1..n |-> Add(p.y[i], q.y[mate(i)])],
            !.f = [i \in 1..n |-> Mul(Mul(p.f[i], q.f[mate(i)]), N(Kept(p)))],
            !.ch = [c \in Chans |-> IF HasCh(q, c) /\ ~HasCh(p, c) THEN [i \in 1..n |-> q.ch[c][mate(i)]] ELSE p.ch[c]],
            !.corr = p.corr \/ q.corr]
Ident(n) == [i \in 1..n |-> i]

(* ------------------------------- images ---------------------------------- *)
Ints == {"i2", "i4", "u2"}
W(b) == b[2] - b[1] + 1
H(b) == b[4] - b[3] + 1
\* the pixel that contains a point: half open towards larger numbers
PixX(x) == Floor(Add(x, "0.5"))
InB(b, x, y) == /\ Le(N(b[1]), PixX(x)) /\ Le(PixX(x), N(b[2])) /\ Le(N(b[3]), PixX(y)) /\ Le(PixX(y), N(b[4]))
Slot(b, x, y) == (I(PixX(y)) - b[3]) * W(b) + (I(PixX(x)) - b[1]) + 1
AddTo(p, im) ==
  LET f == FluxOf(p) in == {i \in 1..Size(p) : InB(im.b, p.x[i], p.y[i])}
      s == [i \in 1..Size(p) |-> IF i \in in THEN Slot(im.b, p.x[i], p.y[i]) ELSE 0]
      px == [k \in 1..Len(im.px) |-> Add(im.px[k], NSum([i \in 1..Size(p) |-> IF s[i] = k THEN f[i] ELSE "0"]))] IN
  [px |-> IF im.dt \in Ints THEN [k \in 1..Len(px) |-> Rint(px[k])] ELSE px,
   raw |-> px, added |-> NSum([i \in 1..Size(p) |-> IF i \in in THEN f[i] ELSE "0"])]

\* photons made from an image: each pixel's value shared by as few photons as the largest flux allows
Per(v, mx) == LET n == I(Ceil(Div(Abs(v), mx))) IN IF n < 1 THEN 1 ELSE n
RECURSIVE Sources(_, _, _)
Sources(px, mx, k) == IF k > Len(px) THEN <<>> ELSE [i \in 1..Per(px[k], mx) |-> k] \o Sources(px, mx, k + 1)
=============================================================================
