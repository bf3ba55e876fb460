------------------------------ MODULE GeoTrace ------------------------------
(* Recorded calls on real angles, shears, sky positions and coordinate       *)
(* systems; a heap of immutable values.                                      *)
EXTENDS Wcs, TraceLib
VARIABLES l, st, dead

LaxV == [t |-> "LAX"]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Cat(SubSeq(s, 2, Len(s)))
Pts(n) == [i \in 1..(Len(n) \div 2) |-> <<n[2 * i - 1], n[2 * i]>>]
TF(b) == IF b THEN "T" ELSE "F"
AllTF(obs, bs) == [i \in 1..Len(bs) |-> TF(bs[i])]

\* result of a call: a value or an observation, or an error
NewV(v, exp, tol) == [k |-> "new", v |-> v, exp |-> exp, tol |-> tol, err |-> ""]
Obs(exp, tol) == [k |-> "obs", v |-> LaxV, exp |-> exp, tol |-> tol, err |-> ""]
NewE(e) == [k |-> "new", v |-> LaxV, exp |-> <<>>, tol |-> Exact, err |-> e]
ObsE(e) == [k |-> "obs", v |-> LaxV, exp |-> <<>>, tol |-> Exact, err |-> e]
\* observation o is acceptable as it is / nothing is
Want(o, ok, what) == IF ok THEN o ELSE <<what>>

CT == <<"1e-12", "3e-15">>
VecTol(c) == <<"1e-12", Add("3e-15", Div("8e-16", Max2(Abs(Cos(c.dec)), "1e-8")))>>
NewAng(r) == NewV(Ang(r), <<r>>, <<"1e-14", "1e-300">>)
NewAngT(r, tol) == NewV(Ang(r), <<r>>, tol)
\* values known only up to a whole turn: the one delivered is taken over
NewAngObs(ok, ev) == IF Len(ev.obs) = 1 /\ ok THEN NewV(Ang(ev.obs[1]), ev.obs, Exact) ELSE NewV(LaxV, <<"angle">>, Exact)
NewShr(g) == NewV(Shr(g), g, <<"1e-11", "1e-14">>)
\* the delivered position is taken over once it is found right (near a pole its error is a matter of rounding)
Adopt(c, ev, tol) == IF Len(ev.obs) >= 3 /\ SeqClose(Vec(c), SubSeq(ev.obs, 1, 3), tol[1], tol[2]) THEN FromVec(SubSeq(ev.obs, 1, 3)) ELSE c
NewCoo(c, ev, tol) == NewV(Adopt(c, ev, tol), Vec(c), tol)

(* ------------------------------ sexagesimal ------------------------------ *)
\* ev.tx = <<sign, field, sep, field, sep, field, decimals, sep>> of the printed text
SexOK(v, ev) ==
  LET x == ev.tx prec == ev.n[1] pad == ev.n[2] = "T" plus == ev.n[3] = "T"
      given == prec # "none" np == IF given THEN I(prec) ELSE 8
      sg == IF x[1] = "-" THEN "-1" ELSE "1"
      eps == Mul("0.5000001", Div(Pow("10", N(-np)), "3600"))
      nd == I(x[7]) IN
  /\ Len(x) = 8
  /\ x[1] = (IF Lt(v, "0") THEN "-" ELSE IF plus THEN "+" ELSE "")
  /\ Close(SexVal(sg, x[2], x[4], x[6]), v, "0", Add(eps, Mul("4e-16", Abs(v))))
  /\ Lt(x[4], "60") /\ Lt(x[6], "60")
  /\ (pad => I(ev.n[4]) >= 2 /\ I(ev.n[5]) = 2 /\ I(ev.n[6]) = 2)      \* widths of the whole parts
  /\ (~pad => I(ev.n[4]) = Len(ToString(I(Floor(x[2])))) /\ I(ev.n[5]) = Len(ToString(I(Floor(x[4])))))
  /\ (IF given THEN nd = np ELSE nd <= 8)
  /\ x[3] = ev.n[7] /\ x[5] = ev.n[8] /\ x[8] = ev.n[9]

(* -------------------------------- angles --------------------------------- *)
AngCall(h, ev) ==
  LET n == ev.n o == h[ev.a] p == h[ev.b] IN
  CASE ev.op = "ang" -> NewAng(Mul(n[1], UnitVal(ev.s)))
    [] ev.op = "angc" -> NewAng(Mul(n[1], n[2]))          \* a unit of one's own
    [] ev.op = "aadd" -> NewAngT(Add(o.r, p.r), <<"1e-14", "1e-15">>)
    [] ev.op = "asub" -> NewAngT(Sub(o.r, p.r), <<"1e-14", "1e-15">>)
    [] ev.op = "aneg" -> NewAng(NNeg(o.r))
    [] ev.op = "aabs" -> NewAng(Abs(o.r))
    [] ev.op = "apos" -> NewAng(o.r)
    [] ev.op = "acopy" -> NewAng(o.r)
    [] ev.op \in {"amul", "armul"} -> NewAng(Mul(o.r, n[1]))
    [] ev.op = "adiv" -> NewAng(Div(o.r, n[1]))
    [] ev.op = "awrap" -> NewAngObs(Len(ev.obs) = 1 /\ IsWrap(o.r, IF ev.b = 0 THEN "0" ELSE p.r, ev.obs[1]), ev)
    [] ev.op = "aread" -> Obs(<<o.r, Div(Mul(o.r, "180"), Pi), Div(o.r, UnitVal(ev.s))>>, <<"1e-14", "0">>)
    [] ev.op = "atrig" -> Obs(<<Sin(o.r), Cos(o.r), Sin(o.r), Cos(o.r), Tan(o.r)>>,
                              <<Add("1e-12", Mul("4e-16", Div("1", Max2("1e-6", Abs(Cos(o.r)))))), "1e-13">>)
    [] ev.op = "acmp" -> Obs(AllTF(ev.obs, <<NEq(o.r, p.r), ~NEq(o.r, p.r), Lt(o.r, p.r), Le(o.r, p.r), Lt(p.r, o.r), Le(p.r, o.r),
                                             NEq(o.r, p.r)>>), Exact)
    [] ev.op = "units" -> Obs(<<UnitVal(ev.s), Div(UnitVal(ev.s), UnitVal(ev.c)), TF(ev.s = ev.c), TF(ev.s = ev.c)>>, <<"1e-15", "0">>)
    [] ev.op = "sex" -> Obs(Want(ev.obs, Len(ev.obs) = 1 /\ Len(ev.tx) = 8 /\ SexOK(Div(o.r, UnitVal(ev.s)), ev), "sexagesimal-of-the-angle"), Exact)
    [] ev.op = "unsex" -> NewAng(Mul(SexVal(n[1], n[2], n[3], n[4]), UnitVal(ev.s)))

(* -------------------------------- shears --------------------------------- *)
ShrCall(h, ev) ==
  LET n == ev.n o == h[ev.a] p == h[ev.b] IN
  CASE ev.op = "shr" ->
        (CASE ev.s = "none" -> NewShr(Z2)
           [] ev.s = "c" -> NewShr(n)
           [] ev.s \in {"g", "e"} -> IF Lt("1", CAbs(n)) THEN NewE("any") ELSE NewShr(CompG(ev.s, n))
           [] ev.s = "eta" -> NewShr(CompG("eta", n))
           [] OTHER -> LET k == CASE ev.s = "gb" -> "g" [] ev.s = "eb" -> "e" [] ev.s = "etab" -> "eta" [] ev.s = "qb" -> "q" IN
                       IF ~SizeOK(k, n[1]) THEN NewE("any") ELSE NewShr(Polar(SizeG(k, n[1]), p.r)))
    [] ev.op = "sadd" -> NewShr(ShAdd(o.g, p.g))
    [] ev.op = "ssub" -> NewShr(ShAdd(o.g, ShNeg(p.g)))
    [] ev.op = "sneg" -> NewShr(ShNeg(o.g))
    [] ev.op = "sattr" -> Obs(ShAttrs(o.g) \o
          <<IF Len(ev.obs) = 14 /\ (Lt(CAbs(o.g), "1e-9") \/ ModClose(Mul("2", ev.obs[14]), Atan2(o.g[2], o.g[1]), Add("1e-11", Div("1e-13", Max2(CAbs(o.g), "1e-300")))))
               /\ Le(Abs(ev.obs[14]), "1.5707963267949") THEN ev.obs[14] ELSE "beta">>, <<"1e-10", "1e-14">>)
    [] ev.op = "smat" -> Obs(ShearM(o.g), <<"1e-11", "1e-14">>)
    [] ev.op = "srot" -> NewAngObs(Len(ev.obs) = 1 /\ ModClose(ev.obs[1], ShRot(o.g, p.g), "1e-10"), ev)

(* --------------------------------- sky ----------------------------------- *)
InTurn(r) == Le("-1e-14", r) /\ Lt(r, "6.28318530717959")
\* coordinates delivered by a computation: position, and right ascension in [0, 2pi)
NormCoo(c, ev, tol) == LET e == Vec(c) IN
  NewV(Adopt(c, ev, tol), e \o <<IF Len(ev.obs) = 4 /\ InTurn(ev.obs[4]) THEN ev.obs[4] ELSE "ra-in-turn">>, tol)
CooCall(h, ev) ==
  LET n == ev.n o == h[ev.a] p == h[ev.b] q == h[ev.d] IN
  CASE ev.op = "coo" -> IF Lt("1.5707963267948968", Abs(p.r)) THEN NewE("any") ELSE LET c == Coo(o.r, p.r) IN NewV(c, Vec(c) \o <<o.r, p.r>>, CT)
    [] ev.op = "cparts" -> LET same(x) == Len(ev.obs) = 7 /\ ModClose(x, o.ra, "1e-13") IN
         Obs((IF Len(ev.obs) = 7 /\ (same(ev.obs[1]) \/ Lt(Cos(o.dec), "1e-3")) THEN <<ev.obs[1], o.dec, ev.obs[1], o.dec>> ELSE <<o.ra, o.dec, o.ra, o.dec>>) \o Vec(o), CT)
    [] ev.op = "cnorm" -> NormCoo(o, ev, CT)
    [] ev.op = "fromxyz" -> IF NEq(Norm3(n), "0") THEN NewE("any") ELSE NormCoo(FromVec(Unit3(n)), ev, CT)
    [] ev.op = "rd2xyz" -> Obs(Scale3(Vec(Coo(n[1], n[2])), n[3]), CT)
    [] ev.op = "xyz2rd" -> LET c == FromVec(Unit3(n)) IN Obs(Vec(c) \o <<Norm3(n)>>, CT)
    [] ev.op = "dist" -> NewV(Ang(Sep(o, p)), <<Sep(o, p)>>, <<"1e-12", "1e-15">>)
    [] ev.op = "angb" -> LET r == AngBetween(o, p, q) sz == Min2(Sep(o, p), Sep(o, q)) IN
         NewAngObs(Len(ev.obs) = 1 /\ Le(Abs(ev.obs[1]), "3.1415926535898") /\ ModClose(ev.obs[1], r, Add("1e-11", Div("1e-15", Max2("1e-14", Mul(sz, sz))))), ev)
    [] ev.op = "area" -> LET e == Area3(o, p, q) IN Obs(<<e>>, <<"1e-7", "1e-11">>)
    [] ev.op = "gcp" -> NormCoo(FromVec(GreatCircle(o, p, q.r)), ev, <<"1e-12", Add("3e-15", Div("1e-15", Max2("1e-12", Sin(Sep(o, p)))))>>)
    [] ev.op = "proj" -> IF ev.s \notin Projections THEN ObsE("ValueError")
         ELSE Obs(Cat([i \in 1..Len(ev.hs) |-> Project(o, h[ev.hs[i]], ev.s)]), <<"1e-10", "1e-14">>)
    [] ev.op = "deproj" -> IF ev.s \notin Projections THEN NewE("ValueError")
         ELSE LET c == Deproject(o, n[1], n[2], ev.s) IN NewCoo(c, ev, VecTol(c))
    [] ev.op = "deprojs" -> Obs(Cat([i \in 1..Len(Pts(n)) |-> DeprojV(o, Pts(n)[i][1], Pts(n)[i][2], ev.s)]), <<"1e-10", "4e-8">>)
    [] ev.op = "jacd" -> IF ev.s \notin Projections THEN ObsE("ValueError") ELSE Obs(JacDeproject(o, n[1], n[2], ev.s), <<"1e-8", "1e-9">>)
    [] ev.op = "prec" -> IF NEq(n[1], n[2]) THEN NewV(o, Vec(o) \o SubSeq(ev.obs, 4, Len(ev.obs)), CT) \* (nothing to do: returned as it is)
         ELSE NormCoo(FromVec(PrecV(Vec(o), n[1], n[2])), ev, CT)
    [] ev.op = "gal" -> LET c == FromVec(GalV(Vec(o))) IN
         Obs(Vec(c) \o <<IF Len(ev.obs) = 4 /\ InTurn(ev.obs[4]) THEN ev.obs[4] ELSE "el-in-turn">>, VecTol(c))
    [] ev.op = "fromgal" -> NormCoo(FromVec(FromGalV(Vec(Coo(o.r, p.r)))), ev, CT)
    [] ev.op = "ecl" -> LET c == FromVec(EclV(Vec(o), n[1])) IN
         Obs(Vec(c) \o <<IF Len(ev.obs) = 4 /\ Le("-3.1415926535898", ev.obs[4]) /\ Le(ev.obs[4], "3.1415926535898") THEN ev.obs[4] ELSE "lambda-in-turn">>, VecTol(c))
    [] ev.op = "fromecl" -> NormCoo(FromVec(FromEclV(Vec(Coo(o.r, p.r)), n[1])), ev, CT)
    [] ev.op = "ecldate" -> NormCoo(o, ev, <<"1e-12", Add("2e-14", VecTol(FromVec(EclV(Vec(o), "2000")))[2])>>)     \* there and back on one date
    [] ev.op = "csame" -> Obs(AllTF(ev.obs, <<NEq(o.ra, p.ra) /\ NEq(o.dec, p.dec), ~(NEq(o.ra, p.ra) /\ NEq(o.dec, p.dec)), NEq(o.ra, p.ra) /\ NEq(o.dec, p.dec)>>), Exact)

(* ------------------------------ flat systems ----------------------------- *)
WNums(w) == w.p \o w.o \o w.w
NewWcs(w) == NewV(w, <<w.k>> \o WNums(w), <<"1e-11", "1e-13">>)
FNums(f) == <<f.ty>> \o f.crpix \o f.cd \o Vec(f.c)
NewFits(f) == NewV(f, FNums(f), <<"1e-11", "1e-13">>)
Scale(m) == Max2(Max2(Abs(m[1]), Abs(m[2])), Max2(Abs(m[3]), Abs(m[4])))
PTol(m, pts) == <<"1e-12", Mul("1e-13", Add("1", Scale(m)))>>
\* the position a call speaks about: none, pixel, or world (given as handle or numbers)
PosIn(w, h, ev, k) == LET n == ev.n IN
  IF ev.c = "w" /\ w.t # "fits" THEN ToI(w, <<n[k], n[k + 1]>>) ELSE <<n[k], n[k + 1]>>
\* (of a celestial system: the sky position of pixel n is given)
HasPos(ev, k) == Len(ev.n) >= k + 1
JAt(w, h, ev, k) == IF w.t = "fits" THEN FitsJac(w, PosIn(w, h, ev, k)) ELSE J(w)
JTol(w) == IF w.t = "fits" THEN <<"1e-7", "1e-9">> ELSE <<"1e-11", "1e-14">>
Refuse(w, ev, k) ==    \* a curved system has no Jacobian without a position
  IF ev.c = "both" THEN "GalSimIncompatibleValuesError" ELSE IF ev.c = "badpos" THEN "TypeError" ELSE IF w.t = "fits" /\ ~HasPos(ev, k) THEN "TypeError" ELSE ""
WcsCtor(h, ev) ==
  LET n == ev.n p == CASE ev.s \in {"PixelScale", "OffsetWCS"} -> 1 [] ev.s \in {"ShearWCS", "OffsetShearWCS"} -> 1 [] OTHER -> 4
      base == IF p = 1 /\ LocalOf(ev.s) = "ShearWCS" THEN <<n[1]>> \o h[ev.b].g ELSE SubSeq(n, 1, p)
      o == IF Len(n) >= p + 2 THEN <<n[p + 1], n[p + 2]>> ELSE Z2
      w == IF Len(n) >= p + 4 THEN <<n[p + 3], n[p + 4]>> ELSE Z2 IN
  Flat6(ev.s, base, o, w)
\* header for a flat system: linear keywords about pixel (1,1), whatever reference pixel they choose
LinOK(w, n, o) ==
  LET d == <<Sub("1", n[1]), Sub("1", n[2])>> v == IF NEq(n[1], "1") /\ NEq(n[2], "1") THEN w ELSE Shift0(w, d) m == SubSeq(o, 5, 8)
      Tol(u) == Add("1e-12", Mul("1e-13", Add(Abs(u), Mul(Scale(J(w)), Add(Rad(v.o), Rad(SubSeq(o, 3, 4))))))) z == ToW(v, Z2)
      y == VSub(SubSeq(o, 1, 2), MatVec(m, SubSeq(o, 3, 4))) IN
  /\ Len(o) = 10 /\ SeqClose(m, J(v), "1e-12", "1e-14") /\ SeqClose(SubSeq(o, 9, 10), n, "0", "0")
  /\ Close(y[1], z[1], "1e-12", Tol(z[1])) /\ Close(y[2], z[2], "1e-12", Tol(z[2]))
DiffW(a, b) == a.t # b.t \/ (a.t = "wcs" /\ (a.k # b.k \/ ~SeqClose(WNums(a), WNums(b), "1e-6", "1e-6")))
                          \/ (a.t = "fits" /\ ~SeqClose(FNums(a), FNums(b), "1e-6", "1e-9"))
FTol(w) == <<"1e-11", "2e-14">>
\* a pixel position that maps onto the sky position
BackOK(w, x, c, tol) == Lt(Sep(FitsW(w, x), c), tol)
WcsCall(h, ev) ==
  LET n == ev.n w == h[ev.a] z == Len(n) IN
  CASE ev.op = "wcs" -> NewWcs(WcsCtor(h, ev))
    [] ev.op = "i2w" -> IF w.t = "wcs" THEN Obs(Cat([i \in 1..Len(Pts(n)) |-> ToW(w, Pts(n)[i])]), PTol(J(w), n))
                        ELSE LET q == [i \in 1..Len(Pts(n)) |-> FitsV(w, Pts(n)[i])] IN
                             Obs(Cat(q), <<"1e-11", MaxS([i \in 1..Len(q) |-> VecTol(FromVec(q[i]))[2]])>>)
    [] ev.op = "i2c" -> LET c == FitsW(w, n) IN NewCoo(c, ev, VecTol(c))
    [] ev.op = "i2p" -> LET c == FitsW(w, n) u == Project(h[ev.b], c, ev.s) IN
         Obs([i \in 1..2 |-> Div(u[i], ArcSec)], <<"1e-9", Max2("1e-7", Mul("4", Div(VecTol(c)[2], ArcSec)))>>)
    [] ev.op = "w2i" -> Obs(Cat([i \in 1..Len(Pts(n)) |-> ToI(w, Pts(n)[i])]), PTol(Inv2(J(w)), n))
    [] ev.op = "c2i" ->
         LET k == Len(ev.hs) eps == Mul(Mul("1e-7", Sqrt(PixArea(w.cd))), UnitVal("degrees")) IN
         Obs(Want(ev.obs, Len(ev.obs) = 2 * k /\ \A i \in 1..k : BackOK(w, <<ev.obs[2 * i - 1], ev.obs[2 * i]>>, h[ev.hs[i]], eps), "pixel-of-the-position"), Exact)
    [] ev.op \in {"local", "jac", "aff"} ->
         IF Refuse(w, ev, 1) # "" THEN NewE(Refuse(w, ev, 1))
         ELSE IF ev.op = "local" /\ w.t = "wcs" THEN NewWcs(LocalWcs(w))
         ELSE LET m0 == JAt(w, h, ev, 1)
                  \* a computed derivative is taken over once it is found right
                  m == IF w.t = "fits" /\ Len(ev.obs) = 9 /\ SeqClose(m0, SubSeq(ev.obs, 2, 5), JTol(w)[1], Add(JTol(w)[2], Mul("1e-9", Scale(m0)))) THEN SubSeq(ev.obs, 2, 5) ELSE m0 IN
              IF ev.op # "aff" THEN NewV(JacWcs(m), <<"JacobianWCS">> \o WNums(JacWcs(m)), JTol(w))
              ELSE LET x == IF HasPos(ev, 1) THEN PosIn(w, h, ev, 1) ELSE Z2
                       a == Flat6("AffineTransform", m, x, IF w.t = "wcs" THEN ToW(w, x) ELSE Z2) IN
                   NewV(a, <<a.k>> \o WNums(a), IF w.t = "fits" THEN JTol(w) ELSE <<"1e-11", "1e-12">>)
    [] ev.op \in {"parea", "scales"} ->
         IF Refuse(w, ev, 1) # "" THEN ObsE(Refuse(w, ev, 1))
         ELSE LET m == JAt(w, h, ev, 1) IN Obs(IF ev.op = "parea" THEN <<PixArea(m)>> ELSE <<Minor(m), Major(m)>>,
              IF w.t = "fits" THEN JTol(w) ELSE <<"1e-11", Mul("1e-13", Scale(m))>>)
    [] ev.op = "wmat" -> Obs(J(w), <<"1e-12", "1e-14">>)
    [] ev.op = "decomp" ->
         LET f == Len(ev.obs) = 5 /\ ev.obs[5] = "T" m == J(w)
             r == Recompose(ev.obs[1], <<ev.obs[2], ev.obs[3]>>, ev.obs[4], f) IN
         Obs(Want(ev.obs, Len(ev.obs) = 5 /\ Lt(CAbs(<<ev.obs[2], ev.obs[3]>>), "1") /\ Lt("0", ev.obs[1]) /\ (f = Lt(Det(m), "0"))
              /\ SeqClose(r, m, "1e-10", Mul("1e-12", Scale(m))), "decomposition"), Exact)
    [] ev.op = "winv" -> NewWcs(Inverse(w))
    [] ev.op = "shorg" ->
         IF w.t = "fits" THEN (IF z = 4 THEN NewE("TypeError") ELSE NewFits([w EXCEPT !.crpix = VAdd(@, n)]))
         ELSE IF z = 2 THEN NewWcs(Shift0(w, n)) ELSE NewWcs(Shift1(w, SubSeq(n, 1, 2), SubSeq(n, 3, 4)))
    [] ev.op \in {"shw", "shi"} ->
         IF Refuse(w, ev, 1) # "" THEN NewE(Refuse(w, ev, 1))
         ELSE LET m == JAt(w, h, ev, 1) g == ShapeUnder(IF ev.op = "shw" THEN m ELSE Inv2(m), h[ev.b].g) IN
              NewV(Shr(g), g, IF w.t = "fits" THEN <<"1e-6", "1e-7">> ELSE <<"1e-9", "1e-11">>)
    [] ev.op \in {"pfw", "pfi"} ->      \* n = ratio, offset, then the position
         IF Refuse(w, ev, 4) # "" THEN NewE(Refuse(w, ev, 4))
         ELSE LET m == JAt(w, h, ev, 4) IN
              NewV(ProfUnder(IF ev.op = "pfw" THEN m ELSE Inv2(m), h[ev.b], n[1], <<n[2], n[3]>>), <<>>, Exact)
    [] ev.op = "sky" ->                  \* n = xmin, xmax, ymin, ymax, level; then the pixels looked at
         LET q == Pts(SubSeq(n, 6, z)) IN
         Obs([i \in 1..Len(q) |-> Mul(n[5], IF w.t = "fits" THEN PixArea(FitsJac(w, q[i])) ELSE PixArea(J(w)))],
             IF w.t = "fits" THEN <<"1e-4", "0">> ELSE IF ev.s = "F" THEN <<"2e-7", "0">> ELSE <<"1e-11", "0">>)
    [] ev.op = "hdr" ->
         IF w.t = "fits" THEN LET v == w IN NewV(v, FNums(v) \o <<n[1], n[2]>>, <<"1e-11", "1e-13">>)
         ELSE LET v == HdrBack(w, n[1], n[2]) IN NewV(v, <<v.k>> \o WNums(v) \o <<n[1], n[2]>>, <<"1e-11", "1e-12">>)
    [] ev.op = "lin" -> Obs(Want(ev.obs, LinOK(w, n, ev.obs), "the-linear-map"), Exact)
    [] ev.op = "flags" ->
         Obs(IF w.t = "fits" THEN <<"F", "F", "F", "T">>
             ELSE <<TF(LocalOf(w.k) = "PixelScale"), TF(Local(w.k)), "T", "F">>, Exact)
    [] ev.op = "wparts" -> IF w.t = "wcs" THEN Obs(<<w.k>> \o WNums(w), <<"1e-11", "1e-13">>) ELSE Obs(FNums(w), <<"1e-11", "1e-13">>)
    [] ev.op = "same" ->       \* equal exactly when one is a copy of the other (or indistinguishable)
         LET v == h[ev.b] IN
         IF w = v THEN Obs(Want(ev.obs, ev.obs = <<"T", "F", "T">> \/ (ev.a # ev.b /\ ev.s # "rt"), "equal"), Exact)
         ELSE IF DiffW(w, v) THEN Obs(<<"F", "T", "F">>, Exact) ELSE Obs(ev.obs, Exact)
    [] ev.op = "compat" -> LET v == h[ev.b] IN
         IF w.t = "wcs" /\ v.t = "wcs" THEN
            IF ~SeqClose(J(w), J(v), "1e-6", "1e-9") THEN Obs(<<"F">>, Exact) ELSE IF ev.s = "rt" THEN Obs(<<"T">>, Exact) ELSE Obs(ev.obs, Exact)
         ELSE Obs(ev.obs, Exact)
    [] ev.op = "fits" -> IF ev.s # "" THEN NewE(ev.s) ELSE NewFits(ReadFits(ev.hdr))
    [] ev.op = "tan" -> NewFits(TanOf(w, h[ev.b], ev.s))

(* ------------------------------- profiles -------------------------------- *)
XTol(o) == <<"1e-7", "1e-12">>
ProfCall(h, ev) ==
  LET o == h[ev.a] n == ev.n IN
  CASE ev.op = "p.leaf" -> NewV(Leaf(ev.s, Canon(ev.s, ev.c, SubSeq(n, 1, Len(n) - 1)), n[Len(n)], GSDefault), <<>>, Exact)
    [] ev.op = "p.shear" -> NewV(Transform(o, ShearM(n), Z2, "1"), <<>>, Exact)
    [] ev.op = "p.shift" -> NewV(Transform(o, I2, n, "1"), <<>>, Exact)
    [] ev.op = "p.x" -> Obs([i \in 1..Len(Pts(n)) |-> XVal(o, Pts(n)[i])], <<"1e-6", Mul("1e-7", MaxSB(o))>>)
    [] ev.op = "p.k" -> Obs(Cat([i \in 1..Len(Pts(n)) |-> KVal(o, Pts(n)[i])]), <<"1e-6", Mul("1e-7", KScale(o))>>)
    [] ev.op = "p.attrs" -> Obs(<<Flux(o), Centroid(o)[1], Centroid(o)[2], MaxSB(o)>>, <<"1e-6", "1e-7">>)

(* copies and round trips give the same value *)
RtCall(h, ev) == LET o == h[ev.a] IN
  CASE o.t = "ang" -> NewAng(o.r)
    [] o.t = "shr" -> NewV(o, o.g, <<"1e-14", "0">>)
    [] o.t = "coo" -> NewV(o, Vec(o), CT)
    [] o.t = "wcs" -> NewV(o, <<o.k>> \o WNums(o), <<"1e-11", "1e-13">>)
    [] o.t = "fits" -> NewV(o, FNums(o), <<"1e-11", "1e-13">>)
    [] OTHER -> NewV(o, <<>>, Exact)

AngOps == {"ang", "angc", "aadd", "asub", "aneg", "aabs", "apos", "acopy", "amul", "armul", "adiv", "awrap", "aread", "atrig", "acmp", "units", "sex", "unsex"}
ShrOps == {"shr", "sadd", "ssub", "sneg", "sattr", "smat", "srot"}
CooOps == {"coo", "cparts", "cnorm", "fromxyz", "rd2xyz", "xyz2rd", "dist", "angb", "area", "gcp", "proj", "deproj", "deprojs", "jacd", "prec",
           "gal", "fromgal", "ecl", "fromecl", "ecldate", "csame"}
ProfOps == {"p.leaf", "p.shear", "p.shift", "p.x", "p.k", "p.attrs"}
ObsOps == {"aread", "atrig", "acmp", "units", "sex", "sattr", "smat", "cparts", "rd2xyz", "xyz2rd", "area", "proj", "deprojs", "jacd", "gal", "ecl", "csame",
           "i2w", "i2p", "w2i", "c2i", "parea", "scales", "wmat", "decomp", "sky", "lin", "flags", "wparts", "same", "compat", "p.x", "p.k", "p.attrs"}
Do(h, ev) ==
  CASE ev.op \in AngOps -> AngCall(h, ev)
    [] ev.op \in ShrOps -> ShrCall(h, ev)
    [] ev.op \in CooOps -> CooCall(h, ev)
    [] ev.op \in ProfOps -> ProfCall(h, ev)
    [] ev.op = "rt" -> RtCall(h, ev)
    [] ev.op = "bad" -> NewE(ev.s)
    [] OTHER -> WcsCall(h, ev)
Refs(ev) == {ev.a, ev.b, ev.d} \cup {ev.hs[i] : i \in 1..Len(ev.hs)}
Step(h, ev) ==
  LET cl == ev.op \o "/" \o ev.s \o "/" \o ev.c \o "/" \o ev.mode IN
  IF \E x \in Refs(ev) : x > 0 /\ (x > Len(h) \/ h[x].t = "LAX") THEN
     [st |-> IF ev.op \in ObsOps THEN h ELSE Append(h, LaxV), exp |-> <<>>, err |-> "?", tol |-> Exact, clause |-> cl]
  ELSE LET r == Do(h, ev) nh == IF r.k = "new" THEN Append(h, r.v) ELSE h IN
     IF r.err # "" THEN Err(nh, r.err, cl) ELSE Ok(nh, r.exp, r.tol, cl)

TInit == l = 1 /\ st = <<>> /\ dead = FALSE
TNext ==
  /\ l <= Len(Tr) /\ l' = l + 1
  /\ LET ev == Tr[l] IN
     IF ev.op = "reset" THEN st' = <<>> /\ dead' = FALSE
     ELSE IF dead THEN UNCHANGED <<st, dead>>
     ELSE LET r == Step(st, ev) IN LET ok == Matches(r, ev) IN
          st' = r.st /\ dead' = ~ok /\ (IF ok THEN TRUE ELSE Report(l, r, ev))
  /\ (l = Len(Tr) => PrintT("DONE " \o ToString(l)))
=============================================================================
