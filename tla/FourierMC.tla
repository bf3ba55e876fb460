------------------------------ MODULE FourierMC ------------------------------
(* Small images and every target rectangle; wrapping and transforming.        *)
EXTENDS Fourier, TLC
CONSTANTS MaxW, Org, Depth
VARIABLES im, orig, d
vars == <<im, orig, d>>
Rects == {<<x, x + w - 1, y, y + h - 1>> : x \in (-Org)..Org, y \in (-Org)..Org, w \in 1..MaxW, h \in 1..MaxW}
Fill(b) == [q \in 1..NPix(b) |-> N(((q * q) % 7) - 2)]
Fill2(b) == [q \in 1..NPix(b) |-> N(((q * 5) % 4) - 1)]
Zero(b) == [q \in 1..NPix(b) |-> "0"]
Img(b) == [b |-> b, re |-> Fill(b), im |-> Zero(b), dt |-> "f8", sc |-> "0.5"]
KImg(b) == [b |-> b, re |-> Fill(b), im |-> Fill2(b), dt |-> "c16", sc |-> "0.5"]
Init == d = 0 /\ im \in {Img(b) : b \in Rects} \cup {KImg(b) : b \in Rects} \cup {Img(XBounds(2)), KImg(KBounds(2)), KImg(<<0, 3, -2, 2>>)} /\ orig = im
Targets(b) == {t \in {<<x, y, z, v>> : x \in b[1]..b[2], y \in b[1]..b[2], z \in b[3]..b[4], v \in b[3]..b[4]} : t[1] <= t[2] /\ t[3] <= t[4]}
Wrap == \E t \in Targets(im.b) : \E ax \in {"", "x", "y"} : (ax # "" => Cplx(im)) /\ HermOK(im, t, ax) /\ HermMeant(im, t, ax) /\ im' = Cut(Wrapped(im, t, ax), t)
Fwd == ~Cplx(im) /\ im' = Forward(im)
Bwd == Cplx(im) /\ In(im.b, 0, 0) /\ HalfK(im.b) > 0 /\ im' = Inverse(im)
Next == d < Depth /\ d' = d + 1 /\ UNCHANGED orig /\ (Wrap \/ Fwd \/ Bwd)

C(x, y) == Close(x, y, "1e-9", "1e-9")
SameIm(a, b) == a.b = b.b /\ \A q \in 1..NPix(a.b) : C(a.re[q], b.re[q]) /\ C(a.im[q], b.im[q])
Padded(m, b) == [m EXCEPT !.b = b, !.re = [q \in 1..NPix(b) |-> IF In(m.b, XOf(b, q), YOf(b, q)) THEN m.re[At(m.b, XOf(b, q), YOf(b, q))] ELSE "0"], !.im = Zero(b)]
\* transforming forth and back gives the padded image back
RoundTrip == ~Cplx(im) => LET k == Forward(im) IN SameIm(Inverse(k), Padded(im, XBounds(HalfX(im.b)))) /\ C(Inverse(k).sc, im.sc)
\* wrapping loses nothing, and onto the image itself changes nothing
Keeps == /\ SameIm(Wrapped(im, im.b, ""), im)
         /\ \A t \in Targets(im.b) : LET w == Cut(Wrapped(im, t, ""), t) IN C(NSum(w.re), NSum(im.re)) /\ C(NSum(w.im), NSum(im.im))
\* an image that is a square even grid, wrapped onto a smaller one, has the modes of the large one at the common frequencies
Alias == ~Cplx(im) /\ im.b = XBounds(2) =>
  LET w == Cut(Wrapped(im, XBounds(1), ""), XBounds(1)) kw == Forward(w) k == Forward(im) IN
  \A q \in 1..NPix(kw.b) : LET x == 2 * XOf(kw.b, q) y == 2 * YOf(kw.b, q) IN
     In(k.b, x, y) => C(kw.re[q], k.re[At(k.b, x, y)]) /\ C(kw.im[q], k.im[At(k.b, x, y)])
\* the mode at the origin is the sum of the pixels times the area; energy is conserved
Flux == ~Cplx(im) => LET k == Forward(im) IN C(k.re[At(k.b, 0, 0)], Mul(Mul(im.sc, im.sc), NSum(im.re))) /\ C(k.im[At(k.b, 0, 0)], "0")
\* half images wrap like the whole image they stand for
Whole(m) == LET b == <<-m.b[2], m.b[2], m.b[3], m.b[4]>> IN
  [m EXCEPT !.b = b, !.re = [q \in 1..NPix(b) |-> LET x == XOf(b, q) y == YOf(b, q) IN IF x >= 0 THEN m.re[At(m.b, x, y)] ELSE m.re[At(m.b, -x, -y)]],
                     !.im = [q \in 1..NPix(b) |-> LET x == XOf(b, q) y == YOf(b, q) IN IF x >= 0 THEN m.im[At(m.b, x, y)] ELSE NNeg(m.im[At(m.b, -x, -y)])]]
Half0 == Cplx(im) => \A t \in Targets(im.b) : HermOK(im, t, "x") /\ HermMeant(im, t, "x") =>
  LET wt == <<1 - t[2], t[2], t[3], t[4]>> w == Cut(Wrapped(Whole(im), wt, ""), t) IN SameIm(Cut(Wrapped(im, t, "x"), t), w)
\* sizes: even, sufficient, minimal
Sizes0 == \A n \in 1..60 : LET s == GoodSize(N(n)) IN s % 2 = 0 /\ s >= n /\ \A r \in {2, 4, 6, 8, 12, 16, 24, 32, 48, 64} : r >= n => s <= r
Inv == RoundTrip /\ Keeps /\ Alias /\ Flux /\ Half0 /\ (d = 0 => Sizes0)
=============================================================================
