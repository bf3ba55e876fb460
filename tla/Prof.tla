--------------------------------- MODULE Prof ---------------------------------
(***************************************************************************)
(* Surface-brightness profiles.  A profile is an expression tree            *)
(*   leaf   : class, parameters, flux                                       *)
(*   tr     : fr * o( M^-1 (x - d) )      (one composed affine map)         *)
(*   sum, conv, deconv                                                      *)
(* carrying accuracy settings gs.  The operators give surface brightness    *)
(* XVal, Fourier transform KVal, Flux, Centroid, MaxSB, StepK, MaxK.        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, Num

GSDefault == [minimum_fft_size |-> "128", maximum_fft_size |-> "8192", folding_threshold |-> "0.005",
  stepk_minimum_hlr |-> "5.0", maxk_threshold |-> "0.001", kvalue_accuracy |-> "1e-05", xvalue_accuracy |-> "1e-05",
  table_spacing |-> "1", realspace_relerr |-> "0.0001", realspace_abserr |-> "1e-06",
  integration_relerr |-> "1e-06", integration_abserr |-> "1e-08", shoot_accuracy |-> "1e-05"]
GSNames == <<"minimum_fft_size", "maximum_fft_size", "folding_threshold", "stepk_minimum_hlr", "maxk_threshold",
  "kvalue_accuracy", "xvalue_accuracy", "table_spacing", "realspace_relerr", "realspace_abserr",
  "integration_relerr", "integration_abserr", "shoot_accuracy">>
\* settings for which a larger value is the more restrictive one
GSMax == {"minimum_fft_size", "maximum_fft_size", "stepk_minimum_hlr"}
\* kw is a sequence of <<name, value>>
RECURSIVE GSWith(_, _)
GSWith(g, kw) == IF kw = <<>> THEN g ELSE GSWith([g EXCEPT ![kw[1][1]] = kw[1][2]], SubSeq(kw, 2, Len(kw)))
GSSame(g, h) == \A f \in DOMAIN g : NEq(g[f], h[f])
RECURSIVE GSCombine(_)
GSCombine(s) ==
  IF Len(s) = 1 THEN s[1]
  ELSE LET r == GSCombine(SubSeq(s, 2, Len(s))) IN
       [f \in DOMAIN r |-> IF f \in GSMax THEN Max2(s[1][f], r[f]) ELSE Min2(s[1][f], r[f])]

(* ------------------------------- structure ------------------------------ *)
I2 == <<"1", "0", "0", "1">>
Leaf(cls, p, flux, gs) ==
  [t |-> "leaf", cls |-> cls, p |-> p, flux |-> flux, gs |-> gs, pg |-> TRUE, kids |-> <<>>, m |-> I2, d |-> <<"0", "0">>, fr |-> "1"]
Node(t, kids, gs, pg) ==
  [t |-> t, cls |-> "", p |-> <<>>, flux |-> "0", gs |-> gs, pg |-> pg, kids |-> kids, m |-> I2, d |-> <<"0", "0">>, fr |-> "1"]

RECURSIVE WithGS(_, _)
WithGS(o, g) ==
  IF GSSame(o.gs, g) THEN o
  ELSE [o EXCEPT !.gs = g, !.kids = IF o.pg THEN [i \in 1..Len(@) |-> WithGS(@[i], g)] ELSE @]

MatMul(a, b) == <<Add(Mul(a[1], b[1]), Mul(a[2], b[3])), Add(Mul(a[1], b[2]), Mul(a[2], b[4])),
                  Add(Mul(a[3], b[1]), Mul(a[4], b[3])), Add(Mul(a[3], b[2]), Mul(a[4], b[4]))>>
MatVec(a, v) == <<Add(Mul(a[1], v[1]), Mul(a[2], v[2])), Add(Mul(a[3], v[1]), Mul(a[4], v[2]))>>
MT(a) == <<a[1], a[3], a[2], a[4]>>
Det(a) == Sub(Mul(a[1], a[4]), Mul(a[2], a[3]))
Inv2(a) == LET d == Det(a) IN <<Div(a[4], d), NNeg(Div(a[2], d)), NNeg(Div(a[3], d)), Div(a[1], d)>>
VAdd(u, v) == <<Add(u[1], v[1]), Add(u[2], v[2])>>
VSub(u, v) == <<Sub(u[1], v[1]), Sub(u[2], v[2])>>
MScale(a, s) == <<Mul(a[1], s), Mul(a[2], s), Mul(a[3], s), Mul(a[4], s)>>

\* one affine map on top of another is the composed affine map
TransformGS(o, m, d, fr, gs, pg) ==
  LET q == IF pg THEN WithGS(o, gs) ELSE o IN
  IF q.t = "tr" THEN
    [Node("tr", q.kids, gs, pg) EXCEPT !.m = MatMul(m, q.m), !.d = VAdd(d, MatVec(m, q.d)), !.fr = Mul(fr, q.fr)]
  ELSE [Node("tr", <<q>>, gs, pg) EXCEPT !.m = m, !.d = d, !.fr = fr]
Transform(o, m, d, fr) == TransformGS(o, m, d, fr, o.gs, TRUE)
Z2 == <<"0", "0">>

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>>
           ELSE (IF s[1].t = "sum" THEN s[1].kids ELSE <<s[1]>>) \o Flat(SubSeq(s, 2, Len(s)))
GSs(s) == [i \in 1..Len(s) |-> s[i].gs]
\* settings given by hand, and whether they are handed on to the parts
Handed(s, g, pg) == [i \in 1..Len(s) |-> IF pg THEN WithGS(s[i], g) ELSE s[i]]
SumGS(s, g, pg) == Node("sum", Handed(Flat(s), g, pg), g, pg)
ConvGS(s, g, pg) == Node("conv", Handed(s, g, pg), g, pg)
DeconvGS(o, g, pg) == Node("deconv", Handed(<<o>>, g, pg), g, pg)
SumOf(s) == SumGS(s, GSCombine(GSs(Flat(s))), TRUE)
ConvOf(s) == ConvGS(s, GSCombine(GSs(s)), TRUE)
DeconvOf(o) == DeconvGS(o, o.gs, TRUE)
\* the settings of a call: those given, or those of the parts
GivenGS(ev, g) == IF ev.gs = <<>> THEN g ELSE GSWith(GSDefault, ev.gs)

RECURSIVE HasT(_, _)
HasT(o, ts) == o.t \in ts \/ o.cls \in ts \/ \E i \in 1..Len(o.kids) : HasT(o.kids[i], ts)
RECURSIVE HardEdges(_)
HardEdges(o) ==
  CASE o.t = "leaf" -> o.cls \in {"Box", "Pixel"}
    [] o.t = "sum" -> \E i \in 1..Len(o.kids) : HardEdges(o.kids[i])
    [] o.t = "tr" -> HardEdges(o.kids[1])
    [] o.t = "conv" -> Len(o.kids) = 1 /\ HardEdges(o.kids[1])
    [] o.t = "deconv" -> FALSE
RECURSIVE AnalyticX(_)
AnalyticX(o) ==
  CASE o.t = "leaf" -> o.cls # "DeltaFunction"
    [] o.t = "sum" -> \A i \in 1..Len(o.kids) : AnalyticX(o.kids[i])
    [] o.t = "tr" -> AnalyticX(o.kids[1])
    [] o.t = "conv" -> Len(o.kids) = 1 /\ AnalyticX(o.kids[1])
    [] o.t = "deconv" -> FALSE
\* both conv factors have hard edges: would need a real-space convolution
RealSpace(s) == Len(s) <= 2 /\ (\A i \in 1..Len(s) : HardEdges(s[i])) /\ (\A i \in 1..Len(s) : AnalyticX(s[i]))
\* can the surface brightness be evaluated at a point?
RECURSIVE XEvaluable(_)
XEvaluable(o) == o.t \notin {"conv", "deconv"} /\ \A i \in 1..Len(o.kids) : XEvaluable(o.kids[i])

(* --------------------------------- leaves -------------------------------- *)
TwoPi == Mul("2", Pi)
Gam(x) == Exp(LGamma(x))
GHLR == "1.1774100225154747"      \* sqrt(2 ln 2)
EHLR == "1.6783469900166605"      \* (1+x) exp(-x) = 1/2
ASSUME Close(Mul(Add("1", EHLR), Exp(NNeg(EHLR))), "0.5", "1e-14", "0")
ASSUME Close(Sq(GHLR), Mul("2", Log("2")), "1e-14", "0")

Rad(p) == Sqrt(Add(Sq(p[1]), Sq(p[2])))
\* fraction of a Spergel profile's flux within z scale radii
SpFrac(nu, z) == Sub("1", Div(Mul(Pow(z, Add(nu, "1")), BesselK(Add(nu, "1"), z)), Mul(Pow("2", nu), Gam(Add(nu, "1")))))
RECURSIVE SpBis(_, _, _, _, _)
SpBis(nu, f, lo, hi, n) ==
  LET mid == Half(Add(lo, hi)) IN
  IF n = 0 THEN mid ELSE IF Lt(SpFrac(nu, mid), f) THEN SpBis(nu, f, mid, hi, n - 1) ELSE SpBis(nu, f, lo, mid, n - 1)
SpRadius(nu, f) == SpBis(nu, f, "1e-12", "40", 55)
MoK(beta, z) == Mul(Div("4", Mul(Pow("2", beta), Gam(Sub(beta, "1")))), Mul(Pow(z, Sub(beta, "1")), BesselK(Sub(beta, "1"), z)))
RECURSIVE MoBis(_, _, _, _, _)
MoBis(beta, t, lo, hi, n) ==    \* bisection in log k
  LET mid == Sqrt(Mul(lo, hi)) IN
  IF n = 0 THEN mid ELSE IF Lt(t, MoK(beta, mid)) THEN MoBis(beta, t, mid, hi, n - 1) ELSE MoBis(beta, t, lo, mid, n - 1)
MoMaxK(beta, t) == MoBis(beta, t, "1e-4", "1e4", 50)
MoHLR(beta) == Sqrt(Sub(Pow("0.5", Div("1", Sub("1", beta))), "1"))
MoFWHM(beta) == Mul("2", Sqrt(Sub(Pow("2", Div("1", beta)), "1")))
MoMaxR(beta, acc) == Sqrt(Sub(Pow(acc, Div("1", Sub("1", beta))), "1"))

\* the canonical parameters for any of the documented size arguments
\* n = the constructor's numbers in order (shape, size), how = the size's name
Canon(cls, how, n) ==
  CASE cls = "Gaussian" -> <<CASE how = "sigma" -> n[1] [] how = "fwhm" -> Div(n[1], Mul("2", GHLR)) [] OTHER -> Div(n[1], GHLR)>>
    [] cls = "Exponential" -> <<IF how = "scale_radius" THEN n[1] ELSE Div(n[1], EHLR)>>
    [] cls = "Moffat" -> <<n[1], CASE how = "scale_radius" -> n[2] [] how = "fwhm" -> Div(n[2], MoFWHM(n[1])) [] OTHER -> Div(n[2], MoHLR(n[1]))>>
    [] cls = "Spergel" -> <<n[1], IF how = "scale_radius" THEN n[2] ELSE Div(n[2], SpRadius(n[1], "0.5"))>>
    [] cls = "Pixel" -> <<n[1], n[1]>>
    [] OTHER -> n
\* size attributes: <<...>> in the order listed
Sizes(cls, p) ==
  CASE cls = "Gaussian" -> <<p[1], Mul(p[1], GHLR), Mul(p[1], Mul("2", GHLR))>>
    [] cls = "Exponential" -> <<p[1], Mul(p[1], EHLR)>>
    [] cls = "Moffat" -> <<p[1], p[2], Mul(p[2], MoHLR(p[1])), Mul(p[2], MoFWHM(p[1]))>>
    [] cls = "Spergel" -> <<p[1], p[2], Mul(p[2], SpRadius(p[1], "0.5"))>>
    [] cls = "Box" -> p
    [] cls = "Pixel" -> <<p[1], p[1], p[2]>>
    [] OTHER -> <<>>

SpNorm(o) == Div(o.flux, Mul(Mul(TwoPi, Pow("2", o.p[1])), Mul(Gam(Add("1", o.p[1])), Sq(o.p[2]))))
LeafX(o, pos) ==
  LET r == Rad(pos) p == o.p IN
  CASE o.cls = "Gaussian" -> Mul(Div(o.flux, Mul(TwoPi, Sq(p[1]))), Exp(Mul("-0.5", Sq(Div(r, p[1])))))
    [] o.cls = "Exponential" -> Mul(Div(o.flux, Mul(TwoPi, Sq(p[1]))), Exp(NNeg(Div(r, p[1]))))
    [] o.cls = "Moffat" ->       \* zero beyond the radius holding all but xvalue_accuracy of the flux
         LET z == Div(r, p[2]) IN
         IF Lt(MoMaxR(p[1], o.gs.xvalue_accuracy), z) THEN "0"
         ELSE Mul(Div(Mul(o.flux, Sub(p[1], "1")), Mul(Pi, Sq(p[2]))), Pow(Add("1", Sq(z)), NNeg(p[1])))
    [] o.cls = "Spergel" ->
         LET z == Div(r, p[2]) IN
         IF NEq(r, "0") THEN IF Lt("0", p[1]) THEN Mul(SpNorm(o), Mul(Gam(p[1]), Pow("2", Sub(p[1], "1")))) ELSE Mul(SpNorm(o), "inf")
         ELSE Mul(SpNorm(o), Mul(Pow(z, p[1]), BesselK(p[1], z)))
    [] o.cls \in {"Box", "Pixel"} ->
         IF Lt(Mul("2", Abs(pos[1])), p[1]) /\ Lt(Mul("2", Abs(pos[2])), p[2]) THEN Div(o.flux, Mul(p[1], p[2])) ELSE "0"
    [] o.cls = "DeltaFunction" -> IF NEq(r, "0") THEN "1e+300" ELSE "0"
LeafK(o, k) ==
  LET r == Rad(k) p == o.p IN
  CASE o.cls = "Gaussian" -> Mul(o.flux, Exp(Mul("-0.5", Sq(Mul(r, p[1])))))
    [] o.cls = "Exponential" -> Mul(o.flux, Pow(Add("1", Sq(Mul(r, p[1]))), "-1.5"))
    [] o.cls = "Moffat" -> IF NEq(r, "0") THEN o.flux ELSE Mul(o.flux, MoK(p[1], Mul(r, p[2])))
    [] o.cls = "Spergel" -> Mul(o.flux, Pow(Add("1", Sq(Mul(r, p[2]))), Sub("-1", p[1])))
    [] o.cls \in {"Box", "Pixel"} -> Mul(o.flux, Mul(Sinc(Div(Mul(k[1], p[1]), TwoPi)), Sinc(Div(Mul(k[2], p[2]), TwoPi))))
    [] o.cls = "DeltaFunction" -> o.flux
LeafSB(o) ==
  CASE o.cls = "DeltaFunction" -> "1e+300"
    [] o.cls = "Spergel" -> IF Lt("0", o.p[1]) THEN LeafX([o EXCEPT !.flux = Abs(@)], Z2) ELSE "inf"
    [] OTHER -> LeafX(o, Z2)
LeafMaxK(o) ==
  LET p == o.p t == o.gs.maxk_threshold IN
  CASE o.cls = "Gaussian" -> Div(Sqrt(Mul("-2", Log(t))), p[1])
    [] o.cls = "Exponential" -> Div(Pow(t, Div("-1", "3")), p[1])        \* large-k form of the transform
    [] o.cls = "Moffat" -> Div(MoMaxK(p[1], t), p[2])
    [] o.cls = "Spergel" -> Div(Sqrt(Sub(Pow(t, Div("-1", Add("1", p[1]))), "1")), p[2])
    [] o.cls \in {"Box", "Pixel"} -> Div("2", Mul(t, Min2(p[1], p[2])))
    [] o.cls = "DeltaFunction" -> "1e+300"
\* radius holding all but folding_threshold of the flux, at least stepk_minimum_hlr half-light radii
RECURSIVE ExpR(_, _, _)
ExpR(R, logx, n) == IF n = 0 THEN R ELSE ExpR(Sub(Log(Add("1", R)), logx), logx, n - 1)
LeafStepK(o) ==
  LET p == o.p t == o.gs.folding_threshold h == o.gs.stepk_minimum_hlr IN
  CASE o.cls = "Gaussian" -> Div(Pi, Mul(p[1], Max2(Sqrt(Mul("-2", Log(t))), Mul(h, GHLR))))
    [] o.cls = "Exponential" -> Div(Pi, Mul(p[1], Max2(ExpR(NNeg(Log(t)), Log(t), 3), Mul(h, EHLR))))
    [] o.cls = "Moffat" -> Div(Pi, Mul(p[2], Max2(Min2(Pow(t, Div("0.5", Sub("1", p[1]))), MoMaxR(p[1], o.gs.xvalue_accuracy)), Mul(h, MoHLR(p[1])))))
    [] o.cls = "Spergel" -> Div(Pi, Mul(p[2], Max2(SpRadius(p[1], Sub("1", t)), Mul(h, SpRadius(p[1], "0.5")))))
    [] o.cls \in {"Box", "Pixel"} -> Div(Pi, Max2(p[1], p[2]))
    [] o.cls = "DeltaFunction" -> "1e+300"

(* ------------------------------- composites ------------------------------ *)
CMul(a, b) == <<Sub(Mul(a[1], b[1]), Mul(a[2], b[2])), Add(Mul(a[1], b[2]), Mul(a[2], b[1]))>>
CAbs2(a) == Add(Sq(a[1]), Sq(a[2]))
CInv(a) == LET n == CAbs2(a) IN <<Div(a[1], n), NNeg(Div(a[2], n))>>
RECURSIVE SumS(_)
SumS(s) == IF s = <<>> THEN "0" ELSE Add(s[1], SumS(SubSeq(s, 2, Len(s))))
RECURSIVE ProdS(_)
ProdS(s) == IF s = <<>> THEN "1" ELSE Mul(s[1], ProdS(SubSeq(s, 2, Len(s))))
RECURSIVE CProd(_)
CProd(s) == IF s = <<>> THEN <<"1", "0">> ELSE CMul(s[1], CProd(SubSeq(s, 2, Len(s))))
RECURSIVE MinS(_)
MinS(s) == IF Len(s) = 1 THEN s[1] ELSE Min2(s[1], MinS(SubSeq(s, 2, Len(s))))
RECURSIVE MaxS(_)
MaxS(s) == IF Len(s) = 1 THEN s[1] ELSE Max2(s[1], MaxS(SubSeq(s, 2, Len(s))))

FluxScale(o) == Mul(Abs(Det(o.m)), o.fr)
RECURSIVE Flux(_)
Flux(o) ==
  CASE o.t = "leaf" -> o.flux
    [] o.t = "tr" -> Mul(FluxScale(o), Flux(o.kids[1]))
    [] o.t = "sum" -> SumS([i \in 1..Len(o.kids) |-> Flux(o.kids[i])])
    [] o.t = "conv" -> ProdS([i \in 1..Len(o.kids) |-> Flux(o.kids[i])])
    [] o.t = "deconv" -> Div("1", Flux(o.kids[1]))
MinAcc(o) == Mul(Flux(o.kids[1]), o.gs.kvalue_accuracy)

RECURSIVE XVal(_, _)
XVal(o, pos) ==
  CASE o.t = "leaf" -> LeafX(o, pos)
    [] o.t = "tr" -> Mul(o.fr, XVal(o.kids[1], MatVec(Inv2(o.m), VSub(pos, o.d))))
    [] o.t = "sum" -> SumS([i \in 1..Len(o.kids) |-> XVal(o.kids[i], pos)])

RECURSIVE KVal(_, _)
KVal(o, k) ==
  CASE o.t = "leaf" -> <<LeafK(o, k), "0">>
    [] o.t = "tr" -> LET ph == NNeg(Add(Mul(k[1], o.d[1]), Mul(k[2], o.d[2]))) s == FluxScale(o) IN
         CMul(<<Mul(s, Cos(ph)), Mul(s, Sin(ph))>>, KVal(o.kids[1], MatVec(MT(o.m), k)))
    [] o.t = "sum" -> LET v == [i \in 1..Len(o.kids) |-> KVal(o.kids[i], k)] IN
         <<SumS([i \in 1..Len(v) |-> v[i][1]]), SumS([i \in 1..Len(v) |-> v[i][2]])>>
    [] o.t = "conv" -> CProd([i \in 1..Len(o.kids) |-> KVal(o.kids[i], k)])
    [] o.t = "deconv" -> LET v == KVal(o.kids[1], k) IN
         IF Lt(Sqrt(CAbs2(v)), MinAcc(o)) THEN <<Div("1", MinAcc(o)), "0">> ELSE CInv(v)

\* the transform as it is drawn: an inverse is cut off where its original is nominally over (f times that place)
RECURSIVE KDrawn(_, _, _)
RECURSIVE MaxK(_)
KDrawn(o, k, f) ==
  CASE o.t = "leaf" -> <<LeafK(o, k), "0">>
    [] o.t = "tr" -> LET ph == NNeg(Add(Mul(k[1], o.d[1]), Mul(k[2], o.d[2]))) s == FluxScale(o) IN
         CMul(<<Mul(s, Cos(ph)), Mul(s, Sin(ph))>>, KDrawn(o.kids[1], MatVec(MT(o.m), k), f))
    [] o.t = "sum" -> LET v == [i \in 1..Len(o.kids) |-> KDrawn(o.kids[i], k, f)] IN
         <<SumS([i \in 1..Len(v) |-> v[i][1]]), SumS([i \in 1..Len(v) |-> v[i][2]])>>
    [] o.t = "conv" -> CProd([i \in 1..Len(o.kids) |-> KDrawn(o.kids[i], k, f)])
    [] o.t = "deconv" -> IF Lt(Mul(f, MaxK(o)), Sqrt(CAbs2(k))) THEN <<"0", "0">>
         ELSE LET v == KDrawn(o.kids[1], k, f) IN
              IF Lt(Sqrt(CAbs2(v)), MinAcc(o)) THEN <<Div("1", MinAcc(o)), "0">> ELSE CInv(v)

RECURSIVE Centroid(_)
Centroid(o) ==
  CASE o.t = "leaf" -> Z2
    [] o.t = "tr" -> VAdd(o.d, MatVec(o.m, Centroid(o.kids[1])))
    [] o.t = "sum" -> LET c == [i \in 1..Len(o.kids) |-> Centroid(o.kids[i])] f == [i \in 1..Len(o.kids) |-> Flux(o.kids[i])] IN
         <<Div(SumS([i \in 1..Len(c) |-> Mul(c[i][1], f[i])]), SumS(f)), Div(SumS([i \in 1..Len(c) |-> Mul(c[i][2], f[i])]), SumS(f))>>
    [] o.t = "conv" -> LET c == [i \in 1..Len(o.kids) |-> Centroid(o.kids[i])] IN
         <<SumS([i \in 1..Len(c) |-> c[i][1]]), SumS([i \in 1..Len(c) |-> c[i][2]])>>
    [] o.t = "deconv" -> LET c == Centroid(o.kids[1]) IN <<NNeg(c[1]), NNeg(c[2])>>

RECURSIVE MaxSB(_)
MaxSB(o) ==
  CASE o.t = "leaf" -> LeafSB(o)
    [] o.t = "tr" -> Mul(o.fr, MaxSB(o.kids[1]))
    [] o.t = "sum" -> SumS([i \in 1..Len(o.kids) |-> MaxSB(o.kids[i])])
    [] o.t = "conv" -> Div(Flux(o), SumS([i \in 1..Len(o.kids) |-> Div(Flux(o.kids[i]), MaxSB(o.kids[i]))]))
    [] o.t = "deconv" -> NNeg(Div(MaxSB(o.kids[1]), Sq(Flux(o.kids[1]))))

Hyp(a, b) == Sqrt(Add(Sq(a), Sq(b)))
Major(m) == Half(Add(Hyp(Add(m[1], m[4]), Sub(m[2], m[3])), Hyp(Sub(m[1], m[4]), Add(m[2], m[3]))))
Minor(m) == Abs(Half(Sub(Hyp(Add(m[1], m[4]), Sub(m[2], m[3])), Hyp(Sub(m[1], m[4]), Add(m[2], m[3])))))

MaxK(o) ==
  CASE o.t = "leaf" -> LeafMaxK(o)
    [] o.t = "tr" -> Div(MaxK(o.kids[1]), Minor(o.m))
    [] o.t = "sum" -> MaxS([i \in 1..Len(o.kids) |-> MaxK(o.kids[i])])
    [] o.t = "conv" -> MinS([i \in 1..Len(o.kids) |-> MaxK(o.kids[i])])
    [] o.t = "deconv" -> MaxK(o.kids[1])
RECURSIVE StepK(_)
StepK(o) ==
  CASE o.t = "leaf" -> LeafStepK(o)
    [] o.t = "tr" -> Div(Pi, Add(Mul(Pi, Div(Major(o.m), StepK(o.kids[1]))), Hyp(o.d[1], o.d[2])))
    [] o.t = "sum" -> MinS([i \in 1..Len(o.kids) |-> StepK(o.kids[i])])
    [] o.t = "conv" -> Div("1", Sqrt(SumS([i \in 1..Len(o.kids) |-> Pow(StepK(o.kids[i]), "-2")])))
    [] o.t = "deconv" -> StepK(o.kids[1])

\* size of the transform's values, for absolute tolerances
RECURSIVE KScale(_)
KScale(o) ==
  CASE o.t = "leaf" -> Abs(o.flux)
    [] o.t = "tr" -> Mul(Abs(FluxScale(o)), KScale(o.kids[1]))
    [] o.t = "sum" -> SumS([i \in 1..Len(o.kids) |-> KScale(o.kids[i])])
    [] o.t = "conv" -> ProdS([i \in 1..Len(o.kids) |-> KScale(o.kids[i])])
    [] o.t = "deconv" -> Abs(Div("1", MinAcc(o)))

\* a profile whose parts cancel has no meaningful centroid or inverse
RECURSIVE AbsFlux(_)
AbsFlux(o) ==
  CASE o.t = "leaf" -> Abs(o.flux)
    [] o.t = "tr" -> Mul(Abs(FluxScale(o)), AbsFlux(o.kids[1]))
    [] o.t = "sum" -> SumS([i \in 1..Len(o.kids) |-> AbsFlux(o.kids[i])])
    [] o.t = "conv" -> ProdS([i \in 1..Len(o.kids) |-> AbsFlux(o.kids[i])])
    [] o.t = "deconv" -> Div("1", Abs(Flux(o.kids[1])))
Degenerate(o) == Le(Abs(Flux(o)), Mul("1e-9", AbsFlux(o)))

(* ---------------------------- user-level calls --------------------------- *)
Ge2(s) == Sqrt(Sub("1", Add(Sq(s[1]), Sq(s[2]))))
\* e = (a^2-b^2)/(a^2+b^2) to g = (a-b)/(a+b)
E2G(e) == LET s == Div("1", Add("1", Ge2(e))) IN <<Mul(e[1], s), Mul(e[2], s)>>
ShearM(g) == MScale(<<Add("1", g[1]), g[2], g[2], Sub("1", g[1])>>, Div("1", Ge2(g)))
Deg(a) == Div(Mul(a, Pi), "180")
RotM(a) == <<Cos(a), NNeg(Sin(a)), Sin(a), Cos(a)>>
Err2(e) == [err |-> e]
Fine(o) == [err |-> "", o |-> o]
BadSize(cls, how) == IF how \in {"none", "two"} THEN "GalSimIncompatibleValuesError" ELSE ""

\* ev: op, a, b, hs (handles), n (numbers), s, gs; h = the heap of profiles
Call(h, ev) ==
  LET o == h[ev.a] n == ev.n IN
  CASE ev.op = "leaf" ->
         IF BadSize(ev.s, ev.c) # "" THEN Err2(BadSize(ev.s, ev.c))
         ELSE IF ev.s = "Moffat" /\ Le(n[1], "1.1") THEN Err2("ValueError")
         ELSE LET z == Len(n) IN
              Fine(Leaf(ev.s, Canon(ev.s, ev.c, SubSeq(n, 1, z - 1)), n[z], GSWith(GSDefault, ev.gs)))
    [] ev.op = "expand" -> Fine(Transform(o, MScale(I2, n[1]), Z2, "1"))
    [] ev.op = "dilate" -> Fine(Transform(o, MScale(I2, n[1]), Z2, Div("1", Sq(n[1]))))
    [] ev.op = "magnify" -> Fine(Transform(o, MScale(I2, Sqrt(n[1])), Z2, "1"))
    [] ev.op = "shear" -> Fine(Transform(o, ShearM(IF ev.s = "e" THEN E2G(n) ELSE n), Z2, "1"))
    [] ev.op = "lens" -> Fine(Transform(o, MScale(ShearM(n), Sqrt(n[3])), Z2, "1"))
    [] ev.op = "rotate" -> Fine(Transform(o, RotM(Deg(n[1])), Z2, "1"))
    [] ev.op = "transform" -> Fine(Transform(o, n, Z2, "1"))
    [] ev.op = "shift" -> Fine(Transform(o, I2, n, "1"))
    [] ev.op = "trf" -> Fine(TransformGS(o, SubSeq(n, 1, 4), SubSeq(n, 5, 6), n[7], GSWith(o.gs, ev.gs), ev.s = "T"))
    [] ev.op = "withflux" -> Fine(IF o.t = "leaf" THEN [o EXCEPT !.flux = n[1]] ELSE Transform(o, I2, Z2, Div(n[1], Flux(o))))
    [] ev.op \in {"scaleflux", "mul", "rmul"} -> Fine(Transform(o, I2, Z2, n[1]))
    [] ev.op = "div" -> Fine(Transform(o, I2, Z2, Div("1", n[1])))
    [] ev.op = "neg" -> Fine(Transform(o, I2, Z2, "-1"))
    [] ev.op = "add" -> Fine(SumOf(<<o, h[ev.b]>>))
    [] ev.op = "sub" -> Fine(SumOf(<<o, Transform(h[ev.b], I2, Z2, "-1")>>))
    [] ev.op = "sum" -> IF ev.hs = <<>> THEN Err2("TypeError") ELSE LET s == [i \in 1..Len(ev.hs) |-> h[ev.hs[i]]] IN
              Fine(SumGS(s, GivenGS(ev, GSCombine(GSs(Flat(s)))), ev.s # "F"))
    [] ev.op = "conv" -> IF ev.hs = <<>> THEN Err2("TypeError")
         ELSE LET s == [i \in 1..Len(ev.hs) |-> h[ev.hs[i]]] IN
              IF RealSpace(s) THEN Err2("NotImplementedError") ELSE Fine(ConvGS(s, GivenGS(ev, GSCombine(GSs(s))), ev.s # "F"))
    [] ev.op = "deconv" -> Fine(DeconvGS(o, GivenGS(ev, o.gs), ev.s # "F"))
    [] ev.op = "gs" -> Fine(WithGS(o, GSWith(o.gs, ev.gs)))
    [] ev.op = "id" -> Fine(o)
    [] ev.op = "bad" -> Err2(ev.s)
    [] OTHER -> Err2("unknown-op")
=============================================================================
