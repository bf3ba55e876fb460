--------------------------------- MODULE Sky ---------------------------------
(***************************************************************************)
(* Angles, shears and positions on the celestial sphere.                    *)
(*   angle : [t |-> "ang", r]           radians                             *)
(*   shear : [t |-> "shr", g]           g = <<g1, g2>>, |g| < 1             *)
(*   coord : [t |-> "coo", ra, dec]     radians                             *)
(***************************************************************************)
EXTENDS Prof

(* -------------------------------- angles -------------------------------- *)
UnitVal(s) ==
  CASE s = "radians" -> "1"
    [] s = "degrees" -> Div(Pi, "180")
    [] s = "hours" -> Div(Pi, "12")
    [] s = "arcmin" -> Div(Pi, "10800")
    [] s = "arcsec" -> Div(Pi, "648000")
ArcSec == Div(Pi, "648000")
Ang(r) == [t |-> "ang", r |-> r]
\* w is r brought into [c - pi, c + pi)
IsWrap(r, c, w) ==
  LET n == Div(Sub(r, w), TwoPi) IN
  /\ Close(n, Rint(n), "0", Add("1e-13", Mul("1e-15", Abs(r))))
  /\ Le(Sub(c, Pi), Add(w, "4e-15"))
  /\ (Lt(w, Add(c, Pi)) \/ (Close(w, Add(c, Pi), "0", "4e-15") /\ ~NEq(r, Add(c, Pi))))
Wrap(r, c) == LET s == Sub(c, Pi) IN Sub(r, Mul(Floor(Div(Sub(r, s), TwoPi)), TwoPi))
ModClose(a, b, tol) == LET d == Div(Sub(a, b), TwoPi) IN Close(d, Rint(d), "0", tol)

(* sexagesimal text, given as its parts: sign, three fields (texts), number *)
(* of decimals of the last; prec = "" when not given                        *)
SexVal(sg, d, m, s) == Mul(sg, Add(d, Add(Div(m, "60"), Div(s, "3600"))))

(* -------------------------------- shears -------------------------------- *)
Shr(g) == [t |-> "shr", g |-> g]
CConj(a) == <<a[1], NNeg(a[2])>>
CAbs(a) == Sqrt(CAbs2(a))
CDiv(a, b) == CMul(a, CInv(b))
Polar(r, b) == <<Mul(r, Cos(Mul("2", b))), Mul(r, Sin(Mul("2", b)))>>
\* any size of distortion to |g|
SizeG(kind, v) ==
  CASE kind = "g" -> v
    [] kind = "e" -> Div(v, Add("1", Sqrt(Sub("1", Sq(v)))))
    [] kind = "eta" -> Tanh(Half(v))
    [] kind = "q" -> Div(Sub("1", v), Add("1", v))
\* components in the convention kind to g
CompG(kind, c) == LET r == CAbs(c) IN IF NEq(r, "0") THEN c ELSE LET f == Div(SizeG(kind, r), r) IN <<Mul(c[1], f), Mul(c[2], f)>>
SizeOK(kind, v) ==
  CASE kind \in {"g", "e"} -> Le("0", v) /\ Le(v, "1")
    [] kind = "eta" -> Le("0", v)
    [] kind = "q" -> Lt("0", v) /\ Le(v, "1")
ShAdd(a, b) == CDiv(VAdd(a, b), VAdd(<<"1", "0">>, CMul(CConj(a), b)))   \* by b first, then by a
ShNeg(a) == <<NNeg(a[1]), NNeg(a[2])>>
ShRot(a, b) == LET r == MatMul(ShearM(ShNeg(ShAdd(a, b))), MatMul(ShearM(a), ShearM(b))) IN Atan2(r[3], r[1])
ShAttrs(g) ==
  LET a == CAbs(g) e == Div(Mul("2", a), Add("1", Sq(a))) eta == Mul("2", Atanh(a))
      u == IF NEq(a, "0") THEN <<"0", "0">> ELSE <<Div(g[1], a), Div(g[2], a)>> IN
  <<g[1], g[2], a, Mul(e, u[1]), Mul(e, u[2]), e, Sq(e), Mul(eta, u[1]), Mul(eta, u[2]), eta, Div(Sub("1", a), Add("1", a)), g[1], g[2]>>

(* -------------------------------- sphere -------------------------------- *)
Coo(ra, dec) == [t |-> "coo", ra |-> ra, dec |-> dec]
Vec(c) == <<Mul(Cos(c.dec), Cos(c.ra)), Mul(Cos(c.dec), Sin(c.ra)), Sin(c.dec)>>
North(c) == <<NNeg(Mul(Sin(c.dec), Cos(c.ra))), NNeg(Mul(Sin(c.dec), Sin(c.ra))), Cos(c.dec)>>
East(c) == <<NNeg(Sin(c.ra)), Cos(c.ra), "0">>
Dot3(a, b) == Add(Mul(a[1], b[1]), Add(Mul(a[2], b[2]), Mul(a[3], b[3])))
Cross3(a, b) == <<Sub(Mul(a[2], b[3]), Mul(a[3], b[2])), Sub(Mul(a[3], b[1]), Mul(a[1], b[3])), Sub(Mul(a[1], b[2]), Mul(a[2], b[1]))>>
Scale3(a, s) == <<Mul(a[1], s), Mul(a[2], s), Mul(a[3], s)>>
Add3(a, b) == <<Add(a[1], b[1]), Add(a[2], b[2]), Add(a[3], b[3])>>
Norm3(a) == Sqrt(Dot3(a, a))
Unit3(a) == Scale3(a, Div("1", Norm3(a)))
FromVec(v) == Coo(Atan2(v[2], v[1]), Atan2(v[3], Hyp(v[1], v[2])))

\* components of the direction from c to d: east, north (length sin of the distance), cosine
Tangent(c, d) == LET dr == Sub(d.ra, c.ra) IN
  <<Mul(Cos(d.dec), Sin(dr)),
    Add(Sin(Sub(d.dec, c.dec)), Mul(Mul(Sin(c.dec), Cos(d.dec)), Mul("2", Sq(Sin(Half(dr)))))),
    Sub(Cos(Sub(d.dec, c.dec)), Mul(Mul(Cos(c.dec), Cos(d.dec)), Mul("2", Sq(Sin(Half(dr))))))>>
Sep(c, d) == LET t == Tangent(c, d) IN Atan2(Hyp(t[1], t[2]), t[3])
Bearing(c, d) == LET t == Tangent(c, d) IN Atan2(t[1], t[2])      \* north through east
AngBetween(c, a, b) == Sub(Bearing(c, b), Bearing(c, a))
\* l'Huilier
Area3(c, a, b) ==
  LET x == Sep(c, a) y == Sep(c, b) z == Sep(a, b) s == Half(Add(x, Add(y, z)))
      T(q) == Tan(Half(q)) IN
  Mul("4", Atan2(Sqrt(Max2("0", Mul(Mul(T(s), T(Sub(s, x))), Mul(T(Sub(s, y)), T(Sub(s, z)))))), "1"))
\* point at angle th along the great circle from c through d
GreatCircle(c, d, th) ==
  LET t == Tangent(c, d) r == Hyp(t[1], t[2])
      w == Add3(Scale3(East(c), Div(t[1], r)), Scale3(North(c), Div(t[2], r))) IN
  Add3(Scale3(Vec(c), Cos(th)), Scale3(w, Sin(th)))

\* plane radius of a point at distance d, and back
ProjR(p, d) ==
  CASE p \in {"", "gnomonic"} -> Tan(d)
    [] p = "stereographic" -> Mul("2", Tan(Half(d)))
    [] p = "lambert" -> Mul("2", Sin(Half(d)))
    [] p = "postel" -> d
ProjD(p, r) ==
  CASE p \in {"", "gnomonic"} -> Atan2(r, "1")
    [] p = "stereographic" -> Mul("2", Atan2(r, "2"))
    [] p = "lambert" -> Mul("2", Asin(Half(r)))
    [] p = "postel" -> r
Projections == {"", "gnomonic", "stereographic", "lambert", "postel"}
\* u to the west, v to the north
Project(c, d, p) ==
  LET t == Tangent(c, d) r == Hyp(t[1], t[2]) IN
  IF NEq(r, "0") THEN <<"0", "0">> ELSE LET f == Div(ProjR(p, Sep(c, d)), r) IN <<NNeg(Mul(t[1], f)), Mul(t[2], f)>>
DeprojV(c, u, v, p) ==
  LET r == Hyp(u, v) IN
  IF NEq(r, "0") THEN Vec(c)
  ELSE LET d == ProjD(p, r) w == Add3(Scale3(East(c), NNeg(Div(u, r))), Scale3(North(c), Div(v, r))) IN
       Add3(Scale3(Vec(c), Cos(d)), Scale3(w, Sin(d)))
Deproject(c, u, v, p) == FromVec(DeprojV(c, u, v, p))
\* local west/north displacement per unit u, v
Diff5(f(_), x, h) == Div(Sub(Mul("8", Sub(f(Add(x, h)), f(Sub(x, h)))), Sub(f(Add(x, Add(h, h))), f(Sub(x, Add(h, h))))), Mul("12", h))
JacDeproject(c, u, v, p) ==
  LET q == Deproject(c, u, v, p) e == East(q) n == North(q) h == "3e-4"
      wu(x) == NNeg(Dot3(e, DeprojV(c, x, v, p))) wv(x) == NNeg(Dot3(e, DeprojV(c, u, x, p)))
      nu(x) == Dot3(n, DeprojV(c, x, v, p)) nv(x) == Dot3(n, DeprojV(c, u, x, p)) IN
  <<Diff5(wu, u, h), Diff5(wv, v, h), Diff5(nu, u, h), Diff5(nv, v, h)>>

\* rotations of the frame
Rz(a, v) == <<Add(Mul(Cos(a), v[1]), Mul(Sin(a), v[2])), Sub(Mul(Cos(a), v[2]), Mul(Sin(a), v[1])), v[3]>>
Ry(a, v) == <<Sub(Mul(Cos(a), v[1]), Mul(Sin(a), v[3])), v[2], Add(Mul(Cos(a), v[3]), Mul(Sin(a), v[1]))>>
Rx(a, v) == <<v[1], Add(Mul(Cos(a), v[2]), Mul(Sin(a), v[3])), Sub(Mul(Cos(a), v[3]), Mul(Sin(a), v[2]))>>
\* Lieske (1979) precession angles
PrecV(v, e1, e2) ==
  LET t0 == Div(Sub(e1, "2000"), "100") t == Div(Sub(e2, e1), "100") t2 == Sq(t) t3 == Mul(t, t2)
      k == Add("2306.2181", Add(Mul("1.39656", t0), Mul("-0.000139", Sq(t0))))
      za == Mul(ArcSec, Add(Mul(k, t), Add(Mul(Add("0.30188", Mul("-0.000344", t0)), t2), Mul("0.017998", t3))))
      zz == Mul(ArcSec, Add(Mul(k, t), Add(Mul(Add("1.09468", Mul("0.000066", t0)), t2), Mul("0.018203", t3))))
      th == Mul(ArcSec, Add(Mul(Add("2004.3109", Add(Mul("-0.8533", t0), Mul("-0.000217", Sq(t0)))), t),
                            Add(Mul(Add("-0.42665", Mul("-0.000217", t0)), t2), Mul("-0.041833", t3)))) IN
  Rz(NNeg(zz), Ry(th, Rz(NNeg(za), v)))
\* J2000 galactic frame: node, tilt, longitude of the node
GalV(v) == Rz(NNeg(Deg("32.93191857")), Rx(Deg("62.8717488056"), Rz(Deg("282.859481208"), v)))
FromGalV(v) == Rz(NNeg(Deg("282.859481208")), Rx(NNeg(Deg("62.8717488056")), Rz(Deg("32.93191857"), v)))
Obliquity(ep) == LET t == Div(Sub(ep, "2000"), "100") IN
  Mul(ArcSec, Add(Sub("84381.406", Mul("46.836769", t)), Add(Mul("-0.0001831", Sq(t)), Mul("0.0020034", Mul(t, Sq(t))))))
EclV(v, ep) == Rx(Obliquity(ep), v)
FromEclV(v, ep) == Rx(NNeg(Obliquity(ep)), v)
=============================================================================
