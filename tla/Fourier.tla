------------------------------- MODULE Fourier -------------------------------
(***************************************************************************)
(* Wrapping images onto a rectangle, and their discrete Fourier transforms. *)
(* An image is [b, re, im, dt, sc]: bounds <<x1, x2, y1, y2>> (or <<>>),     *)
(* real and imaginary parts row by row, pixel type, pixel scale ("" none,    *)
(* "J" a wcs that is not a plain scale).                                     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, Num, TLC

W(b) == b[2] - b[1] + 1
H(b) == b[4] - b[3] + 1
NPix(b) == W(b) * H(b)
In(b, x, y) == b[1] <= x /\ x <= b[2] /\ b[3] <= y /\ y <= b[4]
Inside(t, b) == t[1] <= t[2] /\ t[3] <= t[4] /\ b[1] <= t[1] /\ t[2] <= b[2] /\ b[3] <= t[3] /\ t[4] <= b[4]
At(b, x, y) == (y - b[3]) * W(b) + (x - b[1]) + 1
XOf(b, q) == ((q - 1) % W(b)) + b[1]
YOf(b, q) == ((q - 1) \div W(b)) + b[3]
Cplx(im) == im.dt \in {"c8", "c16"}
Flt4(im) == im.dt \in {"f4", "c8"}
Ints == {"i2", "i4", "u2"}

(* --------------------------------- wrapping ------------------------------- *)
Cong(a, b, n) == (a - b) % n = 0
SumAt(v, S) == NSum([q \in 1..Len(v) |-> IF q \in S THEN v[q] ELSE "0"])
\* the pixels congruent to (x, y)
Class(b, w, h, x, y) == {q \in 1..NPix(b) : Cong(XOf(b, q), x, w) /\ Cong(YOf(b, q), y, h)}
\* ... and those whose mirror image, which holds the conjugate, is (the mirrored axis line is its own image)
Mirror(b, w, h, x, y, ax) == {q \in 1..NPix(b) : Cong(-XOf(b, q), x, w) /\ Cong(-YOf(b, q), y, h) /\ (IF ax = "x" THEN XOf(b, q) # 0 ELSE YOf(b, q) # 0)}
Period(t, ax) == IF ax = "x" THEN <<2 * t[2], H(t)>> ELSE IF ax = "y" THEN <<W(t), 2 * t[4]>> ELSE <<W(t), H(t)>>
WrapAt(im, t, ax, x, y) ==
  LET p == Period(t, ax) c == Class(im.b, p[1], p[2], x, y) m == IF ax = "" THEN {} ELSE Mirror(im.b, p[1], p[2], x, y, ax) IN
  <<Add(SumAt(im.re, c), IF m = {} THEN "0" ELSE SumAt(im.re, m)), Sub(SumAt(im.im, c), IF m = {} THEN "0" ELSE SumAt(im.im, m))>>
WrapTable(im, t, ax) == [q \in 1..NPix(t) |-> WrapAt(im, t, ax, XOf(t, q), YOf(t, q))]
Wrapped(im, t, ax) ==
  LET w == TLCEval(WrapTable(im, t, ax))
      nw(q, i, v) == LET x == XOf(im.b, q) y == YOf(im.b, q) IN IF In(t, x, y) THEN w[At(t, x, y)][i] ELSE v[q] IN
  [im EXCEPT !.re = [q \in 1..NPix(im.b) |-> nw(q, 1, im.re)], !.im = [q \in 1..NPix(im.b) |-> nw(q, 2, im.im)]]
Cut(im, t) == [im EXCEPT !.b = t, !.re = [q \in 1..NPix(t) |-> im.re[At(im.b, XOf(t, q), YOf(t, q))]],
                         !.im = [q \in 1..NPix(t) |-> im.im[At(im.b, XOf(t, q), YOf(t, q))]]]
\* half an image stands for the whole only if the stored half starts at the axis and the other direction is symmetric
HermOK(im, t, ax) == CASE ax = "" -> TRUE
                       [] ax = "x" -> im.b[1] = 0 /\ t[1] = 0
                       [] ax = "y" -> im.b[3] = 0 /\ t[3] = 0
HermMeant(im, t, ax) == CASE ax = "" -> TRUE
                          [] ax = "x" -> im.b[3] = -im.b[4] /\ t[2] > 0
                          [] ax = "y" -> im.b[1] = -im.b[2] /\ t[4] > 0

(* ------------------------------- transforms ------------------------------- *)
Max2i(a, b) == IF a > b THEN a ELSE b
TwoPi == Mul("2", Acos("-1"))
\* half the size of the square, even grid around the origin that holds the image
HalfX(b) == Max2i(Max2i(-b[1], b[2] + 1), Max2i(-b[3], b[4] + 1))
HalfK(b) == Max2i(Max2i(b[2], -b[3]), b[4])
KBounds(h) == <<0, h, -h, h - 1>>
XBounds(h) == <<-h, h - 1, -h, h - 1>>
Tab(im, re, ii) == [q \in 1..NPix(im.b) |-> <<N(XOf(im.b, q)), N(YOf(im.b, q)), re[q], ii[q]>>]
Neg(v) == [q \in 1..Len(v) |-> NNeg(v[q])]
\* sum over pixels of value e^(-i k x), times the pixel area
Forward(im) ==
  LET h == HalfX(im.b) b == KBounds(h) u == Div(NNeg(TwoPi), N(2 * h)) a == Mul(im.sc, im.sc)
      t1 == TLCEval(Tab(im, im.re, im.im)) t2 == TLCEval(Tab(im, im.im, Neg(im.re)))
      f(t, q) == Mul(a, NWave(t, Mul(u, N(XOf(b, q))), Mul(u, N(YOf(b, q))))) IN
  [b |-> b, re |-> [q \in 1..NPix(b) |-> f(t1, q)], im |-> [q \in 1..NPix(b) |-> f(t2, q)], dt |-> "c16",
   sc |-> Div(TwoPi, Mul(N(2 * h), im.sc))]
\* half-plane of modes on the full half grid: pad with zeros and wrap, unless it is already there
OnGrid(im) ==
  LET h == HalfK(im.b) full == <<0, h, -h, h>> pos == <<0, im.b[2], im.b[3], im.b[4]>> c == Cut(im, pos)
      v(w, q) == LET x == XOf(full, q) y == YOf(full, q) IN IF In(pos, x, y) THEN w[At(pos, x, y)] ELSE "0"
      pad == [im EXCEPT !.b = full, !.re = [q \in 1..NPix(full) |-> v(c.re, q)], !.im = [q \in 1..NPix(full) |-> v(c.im, q)]] IN
  IF im.b = KBounds(h) THEN im ELSE Cut(Wrapped(pad, KBounds(h), "x"), KBounds(h))
\* the real image whose modes these are; a mode with kx strictly inside stands for its conjugate as well
Inverse(im) ==
  LET h == HalfK(im.b) g == TLCEval(OnGrid(im)) b == XBounds(h) u == Div(TwoPi, N(2 * h)) a == Div(im.sc, TwoPi)
      wt(q) == IF XOf(g.b, q) \in {0, h} THEN "1" ELSE "2"
      t == TLCEval(Tab(g, [q \in 1..NPix(g.b) |-> Mul(wt(q), g.re[q])], [q \in 1..NPix(g.b) |-> Mul(wt(q), g.im[q])])) IN
  [b |-> b, re |-> [q \in 1..NPix(b) |-> Mul(Mul(a, a), NWave(t, Mul(u, N(XOf(b, q))), Mul(u, N(YOf(b, q)))))],
   im |-> [q \in 1..NPix(b) |-> "0"], dt |-> "f8", sc |-> Div(TwoPi, Mul(N(2 * h), im.sc))]

\* transform sizes: even 2^n or 3 2^n, up to a relative 1e-5
RECURSIVE SizeFrom(_, _)
SizeFrom(s, x) == IF Le(x, N(s)) THEN s ELSE IF s % 3 = 0 THEN SizeFrom((s \div 3) * 4, x) ELSE IF s = 2 THEN SizeFrom(4, x) ELSE SizeFrom((s \div 2) * 3, x)
GoodSize(x) == SizeFrom(2, Mul(Sub("1", "1e-5"), x))
=============================================================================
