--------------------------------- MODULE Wcs ---------------------------------
(***************************************************************************)
(* World coordinate systems.                                                *)
(*  flat : [t |-> "wcs", k : class, p : parameters, o : origin, w : world   *)
(*          origin]          u = J (x - o) + w                              *)
(*  FITS : [t |-> "fits", ty : projection type, crpix, cd, c : centre,      *)
(*          pv, ab : polynomials as sequences of <<i, j, coefU, coefV>>]    *)
(***************************************************************************)
EXTENDS Sky, TLC

Local(k) == k \in {"PixelScale", "ShearWCS", "JacobianWCS"}
LocalOf(k) == CASE k \in {"PixelScale", "OffsetWCS"} -> "PixelScale"
                [] k \in {"ShearWCS", "OffsetShearWCS"} -> "ShearWCS"
                [] OTHER -> "JacobianWCS"
OffsetOf(k) == CASE k \in {"PixelScale", "OffsetWCS"} -> "OffsetWCS"
                 [] k \in {"ShearWCS", "OffsetShearWCS"} -> "OffsetShearWCS"
                 [] OTHER -> "AffineTransform"
WcsKinds == {"PixelScale", "ShearWCS", "JacobianWCS", "OffsetWCS", "OffsetShearWCS", "AffineTransform"}
Flat6(k, p, o, w) == [t |-> "wcs", k |-> k, p |-> p, o |-> o, w |-> w]
\* the linear part
J(w) ==
  CASE LocalOf(w.k) = "PixelScale" -> MScale(I2, w.p[1])
    [] LocalOf(w.k) = "ShearWCS" -> MScale(ShearM(<<NNeg(w.p[2]), NNeg(w.p[3])>>), w.p[1])
    [] OTHER -> w.p
ToW(w, x) == VAdd(MatVec(J(w), VSub(x, w.o)), w.w)
ToI(w, u) == VAdd(MatVec(Inv2(J(w)), VSub(u, w.w)), w.o)
LocalWcs(w) == Flat6(LocalOf(w.k), w.p, Z2, Z2)
JacWcs(m) == Flat6("JacobianWCS", m, Z2, Z2)
Inverse(w) ==
  LET p == CASE LocalOf(w.k) = "PixelScale" -> <<Div("1", w.p[1])>>
             [] LocalOf(w.k) = "ShearWCS" -> <<Div("1", w.p[1]), NNeg(w.p[2]), NNeg(w.p[3])>>
             [] OTHER -> Inv2(w.p) IN
  Flat6(w.k, p, w.w, w.o)
\* without world position: the pixel positions move by d; with: pixel d is at world position u
Shift0(w, d) == IF Local(w.k) THEN Flat6(OffsetOf(w.k), w.p, d, Z2) ELSE [w EXCEPT !.o = VAdd(w.o, d)]
Shift1(w, d, u) == IF Local(w.k) THEN Flat6(OffsetOf(w.k), w.p, d, u) ELSE [w EXCEPT !.o = d, !.w = u]
\* written about pixel (1,1) and read back
HdrBack(w, x, y) == IF NEq(x, "1") /\ NEq(y, "1") THEN w ELSE Shift0(Shift0(w, <<Sub("1", x), Sub("1", y)>>), <<Sub(x, "1"), Sub(y, "1")>>)
PixArea(m) == Abs(Det(m))
\* J = s . S(g) . R(th) . flip
Recompose(s, g, th, flip) ==
  LET m == MScale(MatMul(ShearM(g), RotM(th)), s) IN IF flip THEN <<m[2], m[1], m[4], m[3]>> ELSE m
Decompose(m) ==
  LET f == Lt(Det(m), "0") q == IF f THEN <<m[2], m[1], m[4], m[3]>> ELSE m
      C == Add(q[1], q[4]) S == Sub(q[3], q[2]) th == Atan2(S, C) n == Hyp(C, S)
      a == Sub(q[1], q[4]) b == Add(q[2], q[3]) IN
  [s |-> Sqrt(Abs(Det(m))), th |-> th, flip |-> f,
   g |-> <<Div(Sub(Mul(Cos(th), a), Mul(Sin(th), b)), n), Div(Add(Mul(Sin(th), a), Mul(Cos(th), b)), n)>>]
\* an ellipse's shape matrix [[1+e1, e2], [e2, 1-e1]] under the map m
ShapeE(g) == LET f == Div("2", Add("1", CAbs2(g))) IN <<Mul(g[1], f), Mul(g[2], f)>>
ShapeUnder(m, g) ==
  LET e == ShapeE(g) q == MatMul(MatMul(m, <<Add("1", e[1]), e[2], e[2], Sub("1", e[1])>>), MT(m)) s == Add(q[1], q[4]) IN
  CompG("e", <<Div(Sub(q[1], q[4]), s), Div(Mul("2", q[2]), s)>>)
\* a profile seen through the map: brightness per unit area changes so that flux is kept
ProfUnder(m, prof, ratio, off) == Transform(prof, m, off, Div(ratio, PixArea(m)))

(* ---------------------------- FITS tangent plane ------------------------- *)
ProjOf(ty) ==
  CASE ty \in {"TAN", "TPV", "TAN-SIP"} -> "gnomonic"
    [] ty \in {"STG", "STG-SIP"} -> "stereographic"
    [] ty \in {"ZEA", "ZEA-SIP"} -> "lambert"
    [] ty \in {"ARC", "ARC-SIP"} -> "postel"
Fits(ty, crpix, cd, c, pv, ab) == [t |-> "fits", ty |-> ty, crpix |-> crpix, cd |-> cd, c |-> c, pv |-> pv, ab |-> ab]
RECURSIVE PolySum(_, _, _, _)
PolySum(ts, k, x, y) ==
  IF ts = <<>> THEN "0" ELSE Add(Mul(ts[1][k], Mul(Pow(x, ts[1][1]), Pow(y, ts[1][2]))), PolySum(SubSeq(ts, 2, Len(ts)), k, x, y))
Poly(ts, v) == IF ts = <<>> THEN v ELSE <<PolySum(ts, 3, v[1], v[2]), PolySum(ts, 4, v[1], v[2])>>
\* plane position in radians (u to the west)
FitsUV(f, x) ==
  LET q == Poly(f.pv, MatVec(f.cd, Poly(f.ab, VSub(x, f.crpix)))) IN <<NNeg(Deg(q[1])), Deg(q[2])>>
FitsV(f, x) == LET u == FitsUV(f, x) IN DeprojV(f.c, u[1], u[2], ProjOf(f.ty))
FitsW(f, x) == FromVec(FitsV(f, x))
\* derivative of the position on the sky's local (west, north) plane, in arcsec
FitsJac(f, x) ==
  LET q == FitsW(f, x) e == East(q) n == North(q) h == "0.5" s == Div("1", ArcSec)
      wx(z) == NNeg(Dot3(e, FitsV(f, <<z, x[2]>>))) wy(z) == NNeg(Dot3(e, FitsV(f, <<x[1], z>>)))
      nx(z) == Dot3(n, FitsV(f, <<z, x[2]>>)) ny(z) == Dot3(n, FitsV(f, <<x[1], z>>)) IN
  MScale(<<Diff5(wx, x[1], h), Diff5(wy, x[2], h), Diff5(nx, x[1], h), Diff5(ny, x[2], h)>>, s)
\* a tangent plane through the affine map a, in units un, about the point c
TanOf(a, c, un) ==
  LET s == Div(UnitVal(un), UnitVal("degrees")) m == MScale(J(a), s)
      x0 == VSub(a.o, MatVec(Inv2(J(a)), a.w)) IN
  Fits("TAN", x0, <<NNeg(m[1]), NNeg(m[2]), m[3], m[4]>>, c, <<>>, <<>>)

(* headers: sequences of <<key, value>> *)
Hk(h, k) == \E i \in 1..Len(h) : h[i][1] = k
Hv(h, k, d) == IF Hk(h, k) THEN h[CHOOSE i \in 1..Len(h) : h[i][1] = k][2] ELSE d
\* TPV term number of (i, j) for the first coordinate (second: j, i); odd powers of r left out
PVNames(z) == <<"PV" \o z \o "_0", "PV" \o z \o "_1", "PV" \o z \o "_2", "PV" \o z \o "_4", "PV" \o z \o "_5", "PV" \o z \o "_6",
  "PV" \o z \o "_7", "PV" \o z \o "_8", "PV" \o z \o "_9", "PV" \o z \o "_10", "PV" \o z \o "_12", "PV" \o z \o "_13",
  "PV" \o z \o "_14", "PV" \o z \o "_15", "PV" \o z \o "_16">>
Expo == << <<0, 0>>, <<1, 0>>, <<0, 1>>, <<2, 0>>, <<1, 1>>, <<0, 2>>, <<3, 0>>, <<2, 1>>, <<1, 2>>, <<0, 3>>,
           <<4, 0>>, <<3, 1>>, <<2, 2>>, <<1, 3>>, <<0, 4>> >>
PVTerms(h) ==
  \* term i of the first coordinate multiplies u^a v^b, of the second v^a u^b
  [i \in 1..30 |-> IF i <= 15 THEN <<N(Expo[i][1]), N(Expo[i][2]), Hv(h, PVNames("1")[i], "0"), "0">>
                   ELSE <<N(Expo[i - 15][2]), N(Expo[i - 15][1]), "0", Hv(h, PVNames("2")[i - 15], "0")>>]
SipName(z, i, j) == z \o "_" \o ToString(i) \o "_" \o ToString(j)
SipTerms(h) ==
  [i \in 1..15 |-> LET a == Expo[i][1] b == Expo[i][2] IN
     <<N(a), N(b), Add(Hv(h, SipName("A", a, b), "0"), IF a = 1 /\ b = 0 THEN "1" ELSE "0"),
                   Add(Hv(h, SipName("B", a, b), "0"), IF a = 0 /\ b = 1 THEN "1" ELSE "0")>>]
NonZero(s) == SelectSeq(s, LAMBDA q : ~(NEq(q[3], "0") /\ NEq(q[4], "0")))
UnitText(s) == CASE s = "deg" -> "degrees" [] s = "rad" -> "radians" [] s = "arcsec" -> "arcsec" [] s = "arcmin" -> "arcmin" [] s = "hour" -> "hours"
\* read a celestial header
ReadFits(h) ==
  LET flip == \E ty \in {"TAN", "TPV", "TAN-SIP", "STG", "STG-SIP", "ZEA", "ZEA-SIP", "ARC", "ARC-SIP"} : Hv(h, "CTYPE1", "") = "DEC--" \o ty
      ty0 == CHOOSE ty \in {"TAN", "TPV", "TAN-SIP", "STG", "STG-SIP", "ZEA", "ZEA-SIP", "ARC", "ARC-SIP"} : Hv(h, "CTYPE1", "") \in {"DEC--" \o ty, "RA---" \o ty}
      ty == IF ty0 = "TAN" /\ Hk(h, "PV1_1") THEN "TPV" ELSE ty0
      m == IF Hk(h, "CD1_1") THEN <<Hv(h, "CD1_1", "1"), Hv(h, "CD1_2", "0"), Hv(h, "CD2_1", "0"), Hv(h, "CD2_2", "1")>>
           ELSE IF Hk(h, "PC1_1") THEN
             <<Mul(Hv(h, "PC1_1", "1"), Hv(h, "CDELT1", "1")), Mul(Hv(h, "PC1_2", "0"), Hv(h, "CDELT1", "1")),
               Mul(Hv(h, "PC2_1", "0"), Hv(h, "CDELT2", "1")), Mul(Hv(h, "PC2_2", "1"), Hv(h, "CDELT2", "1"))>>
           ELSE <<Hv(h, "CDELT1", "1"), "0", "0", Hv(h, "CDELT2", "1")>>
      u1 == UnitText(Hv(h, "CUNIT1", "deg")) u2 == UnitText(Hv(h, "CUNIT2", "deg"))
      \* everything in degrees, longitude first
      s1 == Div(UnitVal(u1), UnitVal("degrees")) s2 == Div(UnitVal(u2), UnitVal("degrees"))
      md == <<Mul(m[1], s1), Mul(m[2], s1), Mul(m[3], s2), Mul(m[4], s2)>>
      r1 == Mul(Hv(h, "CRVAL1", "0"), UnitVal(u1)) r2 == Mul(Hv(h, "CRVAL2", "0"), UnitVal(u2)) IN
  Fits(ty, <<Hv(h, "CRPIX1", "0"), Hv(h, "CRPIX2", "0")>>,
       IF flip THEN <<md[3], md[4], md[1], md[2]>> ELSE md,
       IF flip THEN Coo(r2, r1) ELSE Coo(r1, r2),
       IF ty = "TPV" THEN NonZero(PVTerms(h)) ELSE <<>>,
       IF ty \in {"TAN-SIP", "STG-SIP", "ZEA-SIP", "ARC-SIP"} THEN NonZero(SipTerms(h)) ELSE <<>>)
=============================================================================
