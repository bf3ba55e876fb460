-------------------------------- MODULE GeoMC --------------------------------
(***************************************************************************)
(* Model checking of the geometry specification itself: every history of up *)
(* to Depth calls over small sets of values, against laws that do not repeat *)
(* the definitions.                                                         *)
(***************************************************************************)
EXTENDS Wcs, FiniteSets
CONSTANTS Mode, Depth
VARIABLES o, m, n       \* a value, what is known of it independently, calls made

Eq(a, b) == Close(a, b, "1e-9", "1e-10")
EqS(a, b) == SeqClose(a, b, "1e-9", "1e-10")
EqL(a, b) == SeqClose(a, b, "1e-6", "1e-7")

(* -------------------------------- angles --------------------------------- *)
Thetas == {"0", "0.3", Pi, NNeg(Pi), "4.71", "7.1", "-20", "1e-7"}
Units == {"radians", "degrees", "hours", "arcmin", "arcsec"}
Centers == {"0", Pi, "-2", "11"}
\* the text of v with p decimals, from whole numbers only: <<sign, d, m, s>>
Text(v, p) ==
  LET k == Pow("10", N(p)) t == Floor(Add(Mul(Mul("3600", k), Abs(v)), "0.5"))
      d == Floor(Div(t, Mul("3600", k))) r == Sub(t, Mul(d, Mul("3600", k))) mm == Floor(Div(r, Mul("60", k))) IN
  <<IF Lt(v, "0") THEN "-1" ELSE "1", d, mm, Div(Sub(r, Mul(mm, Mul("60", k))), k)>>
AngNext ==
  \/ \E x \in Thetas : o' = Add(o, x) /\ m' = [m EXCEPT !.turns = "?"]
  \/ \E f \in {"-1", "2", "0.5"} : o' = Mul(o, f) /\ m' = [m EXCEPT !.turns = "?"]
  \/ \E c \in Centers : o' = Wrap(o, c) /\ m' = [was |-> o, turns |-> c]
AngLaws ==
  /\ \A c \in Centers : LET w == Wrap(o, c) IN
       /\ IsWrap(o, c, w) /\ Eq(Sin(w), Sin(o)) /\ Eq(Cos(w), Cos(o))
       /\ ModClose(Wrap(w, c), w, "1e-12")
       /\ ModClose(Wrap(Add(o, Mul("3", TwoPi)), c), w, "1e-12")
       \* only one representative: a neighbouring turn is not accepted
       /\ ~(IsWrap(o, c, Add(w, TwoPi)) /\ Lt(Add(Sub(c, Pi), "1e-9"), w)) /\ ~(IsWrap(o, c, Sub(w, TwoPi)) /\ Lt(w, Sub(Add(c, Pi), "1e-9")))
  /\ \A u \in Units : Eq(Mul(Div(o, UnitVal(u)), UnitVal(u)), o)
  /\ Eq(Mul("360", UnitVal("degrees")), Mul("24", UnitVal("hours"))) /\ Eq(Mul("3600", UnitVal("arcsec")), UnitVal("degrees"))
  /\ \A p \in {0, 3} : LET v == Div(o, UnitVal("degrees")) t == Text(v, p) IN
       Close(SexVal(t[1], t[2], t[3], t[4]), v, "1e-14", Div("0.51", Mul("3600", Pow("10", N(p)))))
  /\ (m.turns # "?" => Le(Sub(m.turns, Pi), Add(o, "1e-12")) /\ Le(o, Add(m.turns, Add(Pi, "1e-12"))) /\ Eq(Sin(o), Sin(m.was)))

(* -------------------------------- shears --------------------------------- *)
Shears == {<<"0.3", "-0.1">>, <<"-0.2", "0.6">>, <<"0.0", "0.05">>, <<"-0.7", "0.1">>}
ShrNext ==
  \/ \E s \in Shears : o' = ShAdd(o, s) /\ m' = MatMul(ShearM(o), ShearM(s))
  \/ \E s \in Shears : o' = ShAdd(s, o) /\ m' = MatMul(ShearM(s), m)          \* s on top of all that was there
  \/ \E s \in Shears : o' = ShAdd(s, ShNeg(s)) /\ m' = I2
  \/ o' = ShNeg(o) /\ m' = ShearM(ShNeg(o))
ShrLaws ==
  LET a == ShAttrs(o) S == ShearM(o) mm == MatMul(m, MT(m)) IN
  /\ Lt(CAbs(o), "1") /\ Eq(Det(S), "1") /\ Eq(S[2], S[3]) /\ Lt("0", Add(S[1], S[4]))
  \* a history of shears leaves the distortion of the product of the matrices, one side's rotation apart
  /\ EqS(MatMul(S, S), mm)
  /\ \A s \in Shears :
       /\ EqS(MatMul(S, ShearM(s)), MatMul(ShearM(ShAdd(o, s)), RotM(ShRot(o, s))))
       /\ EqS(ShAdd(ShNeg(o), ShAdd(o, s)), s)
       /\ Eq(CAbs(ShAdd(o, s)), CAbs(ShAdd(s, o)))
  /\ EqS(ShAdd(o, ShNeg(o)), Z2) /\ EqS(ShNeg(ShNeg(o)), o)
  \* one distortion in every convention; q is the axis ratio of the sheared circle
  /\ EqS(CompG("g", <<a[1], a[2]>>), o) /\ EqS(CompG("e", <<a[4], a[5]>>), o) /\ EqS(CompG("eta", <<a[8], a[9]>>), o)
  /\ Eq(a[11], Div(Minor(S), Major(S))) /\ Eq(a[10], NNeg(Log(a[11]))) /\ Eq(a[6], Div(Sub("1", Sq(a[11])), Add("1", Sq(a[11]))))
  /\ \A k \in {"g", "e", "eta"} : LET v == CASE k = "g" -> a[3] [] k = "e" -> a[6] [] k = "eta" -> a[10] IN
       EqS(Polar(SizeG(k, v), Half(Atan2(o[2], o[1]))), o)

(* --------------------------------- sphere -------------------------------- *)
Places == {Coo("0.3", "0.5"), Coo("6.2", "-1.2"), Coo("0.0", "0.0"), Coo("2.0", "1.5707"), Coo("3.14159", "-0.4"), Coo("5.1", "1.1")}
Mv(f(_), p) == <<f(p[1]), f(p[2])>>
SkyNext ==     \* a pair of positions through changes of frame; m undoes them
  \/ \E e \in {<<"2000", "1950">>, <<"1950", "2017.3">>} : LET f(v) == PrecV(v, e[1], e[2]) IN
       o' = Mv(f, o) /\ m' = <<<<"prec", e[2], e[1]>>>> \o m
  \/ LET f(v) == GalV(v) IN o' = Mv(f, o) /\ m' = <<<<"fromgal">>>> \o m
  \/ LET f(v) == FromGalV(v) IN o' = Mv(f, o) /\ m' = <<<<"gal">>>> \o m
  \/ \E e \in {"2000", "1980"} : LET f(v) == EclV(v, e) IN o' = Mv(f, o) /\ m' = <<<<"fromecl", e>>>> \o m
RECURSIVE Undo(_, _)
Undo(v, u) == IF u = <<>> THEN v ELSE
  LET a == u[1] IN
  Undo(CASE a[1] = "prec" -> PrecV(v, a[2], a[3]) [] a[1] = "gal" -> GalV(v) [] a[1] = "fromgal" -> FromGalV(v) [] a[1] = "fromecl" -> FromEclV(v, a[2]), SubSeq(u, 2, Len(u)))
Limit(p) == IF p \in {"", "gnomonic"} THEN "1.3" ELSE "2.9"
FrameLaws ==
  LET a == FromVec(o[1]) b == FromVec(o[2]) IN
  /\ Eq(Norm3(o[1]), "1") /\ Eq(Norm3(o[2]), "1")
  /\ Eq(Cos(Sep(a, b)), Dot3(o[1], o[2])) /\ Eq(Sin(Sep(a, b)), Norm3(Cross3(o[1], o[2])))
  \* nothing is lost: undoing the changes gives the places back (precession's angles are a fit, good to milliarcseconds)
  /\ \E x, y \in Places : SeqClose(Vec(x), Undo(o[1], m), "0", "2e-8") /\ SeqClose(Vec(y), Undo(o[2], m), "0", "2e-8")
PlaneLaws ==
  LET a == FromVec(o[1]) b == FromVec(o[2]) IN
  \A p \in Projections :
    /\ (Lt(Sep(a, b), Limit(p)) =>
         LET u == Project(a, b, p) d == Sep(a, b) IN
         /\ EqS(DeprojV(a, u[1], u[2], p), o[2])
         /\ EqS(Project(b, a, p), Project(b, FromVec(o[1]), p))
         /\ Eq(Hyp(u[1], u[2]), ProjR(p, d)) /\ Eq(ProjD(p, ProjR(p, d)), d)
         /\ (Lt("1e-3", d) /\ Lt("0.01", Cos(b.dec)) =>
              LET j == JacDeproject(a, u[1], u[2], p) IN
              CASE p \in {"", "gnomonic"} -> Close(Det(j), Pow(Cos(d), "3"), "1e-6", "1e-8")
                [] p = "stereographic" -> Close(j[1], j[4], "1e-6", "1e-7") /\ Close(j[2], NNeg(j[3]), "1e-6", "1e-7")     \* angles kept
                [] p = "lambert" -> Close(Det(j), "1", "1e-6", "1e-8")                                                      \* areas kept
                [] p = "postel" -> Close(Det(j), Div(Sin(d), d), "1e-6", "1e-8")))
TriLaws ==
  LET a == FromVec(o[1]) b == FromVec(o[2]) IN
  \A c \in Places : LET x == Sep(a, b) y == Sep(a, c) z == Sep(b, c) IN
    (Lt("0.05", x) /\ Lt("0.05", y) /\ Lt("0.05", z) /\ Lt(x, "3") /\ Lt(y, "3") /\ Lt(z, "3") /\ Lt(Add(Max2(x, Max2(y, z)), "0.02"), Half(Add(x, Add(y, z))))) =>
      LET A == Wrap(AngBetween(a, b, c), "0") B == Wrap(AngBetween(b, c, a), "0") C == Wrap(AngBetween(c, a, b), "0") g == GreatCircle(a, b, Half(x)) h == FromVec(g) IN
      \* excess of the angles is the area, the halves add up, the law of cosines
      /\ EqL(<<Abs(Add(A, Add(B, C)))>>, <<Add(Pi, Area3(a, b, c))>>)
      /\ EqL(<<Add(Area3(a, h, c), Area3(h, b, c))>>, <<Area3(a, b, c)>>)
      /\ Eq(Cos(z), Add(Mul(Cos(x), Cos(y)), Mul(Mul(Sin(x), Sin(y)), Cos(A))))
      /\ Eq(Sep(a, h), Half(x)) /\ Eq(Sep(h, b), Half(x))

(* ----------------------------- flat systems ------------------------------ *)
Flips == <<"0.1", "0.9", "1.2", "-0.2">>
Systems == {Flat6("PixelScale", <<"0.3">>, Z2, Z2), Flat6("ShearWCS", <<"1.4", "0.2", "-0.3">>, Z2, Z2), Flat6("JacobianWCS", <<"0.9", "0.2", "-0.3", "1.1">>, Z2, Z2),
            Flat6("JacobianWCS", Flips, Z2, Z2), Flat6("OffsetWCS", <<"2.0">>, <<"3", "-1">>, <<"0.5", "7">>),
            Flat6("OffsetShearWCS", <<"0.7", "-0.4", "0.1">>, <<"-2", "1">>, Z2), Flat6("AffineTransform", Flips, <<"10", "20">>, <<"-1", "4">>)}
Ds == {<<"3", "-7">>, <<"0.25", "0">>}
Xs == {<<"0", "0">>, <<"1", "-2">>, <<"13.5", "8">>}
\* m: where the pixels of the first system are now, and their sky positions: pairs <<x, u>>
WcsNext ==
  \/ \E d \in Ds : o' = Shift0(o, d) /\ m' = [x \in DOMAIN m |-> <<VAdd(m[x][1], d), m[x][2]>>]
  \/ \E d \in Ds : \E u \in {<<"-4", "9">>} : LET w == Shift1(o, d, u) IN
       o' = w /\ m' = [x \in DOMAIN m |-> <<VAdd(x, d), VAdd(MatVec(J(o), x), u)>>]
  \/ o' = LocalWcs(o) /\ m' = [x \in DOMAIN m |-> <<x, MatVec(J(o), x)>>]
  \/ o' = Inverse(o) /\ m' = [x \in DOMAIN m |-> <<m[x][2], m[x][1]>>]
  \/ \E p \in {<<"-3", "8">>, <<"1", "1">>} : o' = HdrBack(o, p[1], p[2]) /\ UNCHANGED m
Gau == Leaf("Gaussian", <<"1.3">>, "2.5", GSDefault)
WcsLaws ==
  LET j == J(o) IN
  /\ o.k \in WcsKinds /\ (Local(o.k) => o.o = Z2 /\ o.w = Z2)
  /\ \A x \in Xs : EqS(ToI(o, ToW(o, x)), x) /\ EqS(ToW(o, ToI(o, x)), x)
                   /\ \A y \in Xs : EqS(VSub(ToW(o, VAdd(x, y)), ToW(o, x)), MatVec(j, y))
  \* the history of shifts, inverses and headers, followed pixel by pixel
  /\ \A x \in DOMAIN m : EqS(ToW(o, m[x][1]), m[x][2])
  /\ LET d == Decompose(j) IN EqS(Recompose(d.s, d.g, d.th, d.flip), j) /\ Eq(Sq(d.s), PixArea(j)) /\ Lt(CAbs(d.g), "1")
  /\ Eq(Mul(Minor(j), Major(j)), PixArea(j)) /\ Le(Minor(j), Add(Major(j), "1e-12"))
  /\ \A g \in {<<"0.3", "-0.1">>, <<"0", "0.6">>} : EqS(ShapeUnder(Inv2(j), ShapeUnder(j, g)), g)
  /\ LET p == ProfUnder(j, Gau, "1.0", Z2) q == ProfUnder(Inv2(j), p, "1.0", Z2) IN
       /\ Eq(Flux(p), "2.5") /\ Eq(Flux(ProfUnder(j, Gau, "1.7", <<"1", "2">>)), Mul("1.7", "2.5"))
       /\ \A x \in Xs : Eq(XVal(p, MatVec(j, x)), Div(XVal(Gau, x), PixArea(j))) /\ Eq(XVal(q, x), XVal(Gau, x))
       \* the shape of a round profile seen through the map is the map's own shear
       /\ EqS(ShapeUnder(j, Z2), Decompose(j).g)

(* --------------------------- celestial systems --------------------------- *)
H0(ty, form, un) ==
  LET f == CASE un = "deg" -> "1" [] un = "arcsec" -> "3600" [] un = "rad" -> Div(Pi, "180")
      v(x) == Mul(x, f) flip == form = "flip" IN
  << <<"CTYPE1", IF flip THEN "DEC--" \o ty ELSE "RA---" \o ty>>, <<"CTYPE2", IF flip THEN "RA---" \o ty ELSE "DEC--" \o ty>>,
     <<"CRVAL1", v(IF flip THEN "-33.5" ELSE "150.2")>>, <<"CRVAL2", v(IF flip THEN "150.2" ELSE "-33.5")>>, <<"CRPIX1", "512.25">>, <<"CRPIX2", "-80">>,
     <<"CUNIT1", un>>, <<"CUNIT2", un>> >>
  \o (CASE form = "CD" -> << <<"CD1_1", v("-1e-4")>>, <<"CD1_2", v("2e-5")>>, <<"CD2_1", v("1e-5")>>, <<"CD2_2", v("1.1e-4")>> >>
        [] form = "PC" -> << <<"CDELT1", v("-1e-4")>>, <<"CDELT2", v("1e-4")>>, <<"PC1_1", "1">>, <<"PC1_2", "-0.2">>, <<"PC2_1", "0.1">>, <<"PC2_2", "1.1">> >>
        [] form = "flip" -> << <<"CD1_1", v("1e-5")>>, <<"CD1_2", v("1.1e-4")>>, <<"CD2_1", v("-1e-4")>>, <<"CD2_2", v("2e-5")>> >>)
Dist == [sip |-> << <<"A_2_0", "2e-6">>, <<"B_1_1", "-1e-6">>, <<"A_0_3", "1e-10">> >>, tpv |-> << <<"PV1_0", "0.0002">>, <<"PV1_1", "1.001">>, <<"PV2_1", "0.999">>, <<"PV1_4", "0.002">>, <<"PV2_5", "-0.003">>, <<"PV2_2", "0.01">> >>]
FitsSet == {ReadFits(H0(ty, fm, un)) : ty \in {"TAN", "STG", "ZEA", "ARC"}, fm \in {"CD", "PC", "flip"}, un \in {"deg", "arcsec", "rad"}}
           \cup {ReadFits(H0(ty, "CD", "deg") \o Dist.sip) : ty \in {"TAN-SIP", "ARC-SIP"}} \cup {ReadFits(H0("TPV", "CD", "deg") \o Dist.tpv)}
           \cup {TanOf(w, Coo("1.0", "0.4"), "arcsec") : w \in {x \in Systems : x.k \in {"JacobianWCS", "AffineTransform"}}}
FXs == {<<"512.25", "-80">>, <<"0", "0">>, <<"1500", "700">>}
FitsNext == \E d \in Ds : o' = [o EXCEPT !.crpix = VAdd(@, d)] /\ m' = [x \in DOMAIN m |-> <<VAdd(m[x][1], d), m[x][2]>>]
FitsLaws ==
  /\ \A x \in DOMAIN m : SeqClose(FitsV(o, m[x][1]), m[x][2], "0", "1e-12")
  \* whatever form the header takes, the same numbers
  /\ (o.ty \in {"STG", "ZEA", "ARC"} => EqS(o.cd, <<"-1e-4", "2e-5", "1e-5", "1.1e-4">>) /\ EqS(Vec(o.c), Vec(Coo(Deg("150.2"), Deg("-33.5")))))
  /\ (o.pv = <<>> /\ o.ab = <<>> => SeqClose(FitsV(o, o.crpix), Vec(o.c), "0", "1e-12")
        /\ SeqClose(FitsJac(o, o.crpix), MScale(<<NNeg(o.cd[1]), NNeg(o.cd[2]), o.cd[3], o.cd[4]>>, "3600"), "1e-6", "1e-8"))
  \* to first order a pixel's step on the sky is the Jacobian's
  /\ \A x \in FXs : LET q == FitsW(o, x) p == FitsW(o, VAdd(x, <<"0.01", "0.02">>)) u == Project(q, p, "postel") s == MatVec(FitsJac(o, x), <<"0.01", "0.02">>) IN
       SeqClose(<<Div(u[1], ArcSec), Div(u[2], ArcSec)>>, s, "1e-5", "1e-6")

(* ------------------------------------------------------------------------- *)
Init ==
  /\ n = 0
  /\ CASE Mode = "ang" -> o \in Thetas /\ m = [was |-> o, turns |-> "?"]
       [] Mode = "shr" -> o \in Shears /\ m = ShearM(o)
       [] Mode = "sky" -> o \in {<<Vec(x), Vec(y)>> : x \in Places, y \in Places} /\ m = <<>>
       [] Mode = "wcs" -> o \in Systems /\ m = [x \in Xs |-> <<x, ToW(o, x)>>]
       [] Mode = "fits" -> o \in FitsSet /\ m = [x \in FXs |-> <<x, FitsV(o, x)>>]
Next ==
  /\ n < Depth /\ n' = n + 1
  /\ CASE Mode = "ang" -> AngNext [] Mode = "shr" -> ShrNext [] Mode = "sky" -> SkyNext [] Mode = "wcs" -> WcsNext [] Mode = "fits" -> FitsNext
Laws == CASE Mode = "ang" -> AngLaws [] Mode = "shr" -> ShrLaws [] Mode = "sky" -> FrameLaws [] Mode = "wcs" -> WcsLaws [] Mode = "fits" -> FitsLaws
Plane == Mode = "sky" => PlaneLaws
Tri == Mode = "sky" => TriLaws
=============================================================================
