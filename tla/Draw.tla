--------------------------------- MODULE Draw ---------------------------------
(***************************************************************************)
(* Drawing profiles into images.  An image is                              *)
(*   [t |-> "img", b |-> <<xmin, xmax, ymin, ymax>> or <<>>, dt, w : its   *)
(*    coordinate system, const, base |-> <<a, b, c>> : initial pixel value  *)
(*    a + b x + c y, terms : what has been drawn into it, in order]         *)
(* so a pixel's value is known without holding the pixels.                  *)
(***************************************************************************)
EXTENDS Wcs, FiniteSets

NoW == [t |-> "nowcs"]
Img(b, dt, w, const, base) == [t |-> "img", b |-> b, dt |-> dt, w |-> w, const |-> const, base |-> base, terms |-> <<>>]
Ints == {"i2", "i4"}
Wide == {"f8", "i4", "c16"}       \* types whose Fourier work is done in double precision

(* ------------------------------ arguments -------------------------------- *)
KHas(kw, k) == \E i \in 1..Len(kw) : kw[i][1] = k
KGet(kw, k, d) == IF KHas(kw, k) THEN kw[CHOOSE i \in 1..Len(kw) : kw[i][1] = k][2] ELSE d
KInt(kw, k) == I(KGet(kw, k, "0"))
KTrue(kw, k) == KGet(kw, k, "F") = "T"
KPos(kw, k) == <<KGet(kw, k \o "x", "0"), KGet(kw, k \o "y", "0")>>
KBounds(kw) == IF KGet(kw, "bx0", "") = "none" THEN <<>> ELSE <<KInt(kw, "bx0"), KInt(kw, "bx1"), KInt(kw, "by0"), KInt(kw, "by1")>>

Width(b) == b[2] - b[1] + 1
Height(b) == b[4] - b[3] + 1
NCen(b) == <<N((b[1] + b[2] + 1) \div 2), N((b[3] + b[4] + 1) \div 2)>>      \* the pixel drawing counts from
TCen(b) == <<Half(N(b[1] + b[2])), Half(N(b[3] + b[4]))>>
MoveB(b, x, y) == <<b[1] + x, b[2] + x, b[3] + y, b[4] + y>>
\* nx by ny pixels as close about the point as whole pixels allow
SizeB(nx, ny, kw) ==
  LET b == <<1, nx, 1, ny>> c == KPos(kw, "c") t == TCen(b) IN
  IF KHas(kw, "cx") THEN MoveB(b, I(Floor(Sub(Add(c[1], "0.5"), t[1]))), I(Floor(Sub(Add(c[2], "0.5"), t[2])))) ELSE b

Max(a, b) == IF a > b THEN a ELSE b
AbsI(a) == IF a < 0 THEN -a ELSE a
RECURSIVE PowGE(_, _)
PowGE(n, p) == IF p >= n THEN p ELSE PowGE(n, 2 * p)
GoodFFT(n) == LET a == PowGE(n, 2) b == IF n <= 6 THEN 6 ELSE PowGE(n, 6) IN IF n <= 2 THEN 2 ELSE IF b < a THEN b ELSE a

\* smallest even whole number of pixels covering 2 pi / stepk; "unclear" when rounding decides
GoodN(x) == LET n == I(Ceil(Mul(x, "0.999999999999"))) IN 2 * ((n + 1) \div 2)
UnclearN(x, tol) == GoodN(Mul(x, Sub("1", tol))) # GoodN(Mul(x, Add("1", tol)))

(* ------------------------------- drawImage ------------------------------- *)
Methods == {"auto", "fft", "real_space", "no_pixel", "sb"}
PixelOf(g) == Leaf("Pixel", <<"1", "1">>, "1", g)
Convolved(q) == Node("conv", <<q, WithGS(PixelOf(q.gs), q.gs)>>, q.gs, TRUE)
PhotOnly == {"n_photons", "max_extra_noise", "poisson_flux", "rng", "maxN", "save_photons"}
\* relative accuracy to which limits in k are known
LimRel(o) == IF HasT(o, {"Moffat"}) THEN "2e-3" ELSE IF HasT(o, {"Spergel"}) THEN "1e-5" ELSE "1e-9"
StepRel(o) == IF HasT(o, {"Spergel"}) THEN "1e-5" ELSE "1e-9"

Uniform(w) == w.t = "wcs"
\* the requested coordinate system: argument, else the image's, else Nyquist sampling
DrawWcs(o, kw, wa, im) ==
  LET w == IF wa.t # "nowcs" THEN wa ELSE IF KHas(kw, "scale") THEN Flat6("PixelScale", <<KGet(kw, "scale", "1")>>, Z2, Z2)
           ELSE IF im.t = "img" THEN im.w ELSE NoW
      nyq == Flat6("PixelScale", <<Div(Pi, MaxK(o))>>, Z2, Z2) IN
  IF w.t = "nowcs" THEN nyq ELSE IF w.t = "wcs" /\ w.k = "PixelScale" /\ Le(w.p[1], "0") THEN nyq ELSE w

\* every reason to refuse the call
Refusals(o, kw, m, wa, im) ==
  LET gave == im.t = "img"
      undef == gave /\ im.b = <<>>
      size == KHas(kw, "nx") \/ KHas(kw, "ny")
      w == DrawWcs(o, kw, wa, im)
      nob == IF gave THEN undef ELSE ~((KHas(kw, "nx") /\ KHas(kw, "ny")) \/ (KHas(kw, "bx0") /\ KBounds(kw) # <<>>))
      I1(c, e) == IF c THEN {e} ELSE {} IN
  UNION {
    I1(m \notin Methods, "GalSimValueError"),
    I1(\E k \in PhotOnly : KHas(kw, k), "GalSimIncompatibleValuesError"),
    I1(wa.t # "nowcs" /\ KHas(kw, "scale"), "GalSimIncompatibleValuesError"),
    I1(gave /\ (KHas(kw, "bx0") \/ size), "GalSimIncompatibleValuesError"),
    I1(gave /\ KHas(kw, "dtype") /\ KGet(kw, "dtype", "") # im.dt, "GalSimIncompatibleValuesError"),
    I1(KTrue(kw, "add") /\ (~gave \/ undef), "GalSimIncompatibleValuesError"),
    I1(~gave /\ KHas(kw, "bx0") /\ size, "GalSimIncompatibleValuesError"),
    I1(~gave /\ KHas(kw, "bx0") /\ KBounds(kw) = <<>>, "GalSimValueError"),
    I1(~gave /\ KHas(kw, "nx") # KHas(kw, "ny"), "GalSimIncompatibleValuesError"),
    I1(~Uniform(w) /\ nob, "GalSimIncompatibleValuesError"),
    I1(gave /\ im.const /\ ~KTrue(kw, "setup"), "GalSimImmutableError"),
    I1(\E k \in {"area", "exptime", "gain"} : Le(KGet(kw, k, "1"), "0"), "any"),
    I1(m \in {"auto", "real_space"} /\ HardEdges(o) /\ AnalyticX(o), "NotImplementedError"),
    I1(m = "real_space" /\ AnalyticX(o), "NotImplementedError") }
OneErr(s) == IF Cardinality(s) = 1 THEN CHOOSE e \in s : TRUE ELSE "any"

\* sampling of the transform: N points per period, Nk of them kept (aliased back when Nk > N)
FFTSize(p, b) ==
  LET g == p.gs x == Div(TwoPi, StepK(p)) mk == MaxK(p)
      lo == I(g.minimum_fft_size) hi == I(g.maximum_fft_size)
      c == <<(b[1] + b[2] + 1) \div 2, (b[3] + b[4] + 1) \div 2>>
      edge == 2 * Max(Max(AbsI(b[1] - c[1]), AbsI(b[2] - c[1])), Max(AbsI(b[3] - c[2]), AbsI(b[4] - c[2])))
      cover == Max(edge, Max(Width(b), Height(b)))
      nOf(y) == Max(GoodFFT(Max(GoodN(y), cover)), lo)
      n == nOf(x) r == StepRel(p)
      z == Div(Mul(mk, N(n)), TwoPi) up == 2 * I(Ceil(z)) q == LimRel(p) IN
  IF lo = hi THEN [n |-> lo, nk |-> lo, unclear |-> FALSE, short |-> cover > lo]
  ELSE [n |-> n, nk |-> IF Lt(mk, Pi) THEN n ELSE up, short |-> FALSE,
        unclear |-> \/ nOf(Mul(x, Sub("1", r))) # nOf(Mul(x, Add("1", r))) \/ Close(mk, Pi, q, "0")
                    \/ (Le(Pi, mk) /\ ~NEq(Ceil(Mul(z, Sub("1", q))), Ceil(Mul(z, Add("1", q)))))]

\* the whole plan of a drawing: where, in what form, scaled how
Plan(o, kw, m, wa, im) ==
  LET gave == im.t = "img" /\ im.b # <<>>
      w == DrawWcs(o, kw, wa, im)
      known == IF gave THEN im.b ELSE IF KHas(kw, "nx") THEN SizeB(KInt(kw, "nx"), KInt(kw, "ny"), kw)
               ELSE IF KHas(kw, "bx0") THEN KBounds(kw) ELSE <<>>
      off == KPos(kw, "o") cen == KPos(kw, "c") usec == KHas(kw, "cx") true == KGet(kw, "true", "T") = "T"
      place == VAdd(off, IF usec THEN cen ELSE IF known = <<>> THEN Z2 ELSE IF true THEN TCen(known) ELSE NCen(known))
      j == IF Uniform(w) THEN J(w) ELSE FitsJac(w, place)
      fs0 == Mul(KGet(kw, "area", "1"), KGet(kw, "exptime", "1"))
      fs1 == IF m = "sb" THEN Div(fs0, PixArea(j)) ELSE fs0
      fs == IF m = "phot" THEN fs1 ELSE Div(fs1, KGet(kw, "gain", "1"))
      \* where the profile sits, counted from the centre pixel (a size yet to be found is even)
      d == IF known # <<>> THEN VSub(place, NCen(known))
           ELSE IF usec THEN VAdd(off, <<Sub(cen[1], Ceil(cen[1])), Sub(cen[2], Ceil(cen[2]))>>)
           ELSE IF true THEN VSub(off, <<"0.5", "0.5">>) ELSE off
      q == ProfUnder(Inv2(j), o, fs, d)
      p == IF m \in {"auto", "fft", "real_space"} THEN Convolved(q) ELSE q
      x == Div(TwoPi, StepK(p))
      n == IF known # <<>> THEN 0 ELSE GoodN(x)
      sq == <<1, n, 1, n>>
      b == IF known # <<>> THEN known
           ELSE IF usec /\ im.t # "img" THEN MoveB(sq, I(Ceil(cen[1])) - (n \div 2 + 1), I(Ceil(cen[2])) - (n \div 2 + 1))
           ELSE sq
      fft == ~AnalyticX(p) IN
  [w |-> w, b |-> b, p |-> p, fs |-> fs, j |-> j, fft |-> fft, d |-> d, n |-> n, sized |-> known = <<>>,
   unclear |-> known = <<>> /\ UnclearN(x, StepRel(p))]

(* terms of an image's value *)
DirTerm(p, b) == [k |-> "x", p |-> p, c |-> NCen(b), n |-> 0, nk |-> 0, tab |-> <<>>]
\* samples of the transform, the half plane kx >= 0: <<kx, ky, weight, re, im>>
Table(p, n, nk) ==
  LET h == nk \div 2 dk == Div(TwoPi, N(n)) nc == 2 * h + 1 IN
  [i \in 1..((h + 1) * nc) |->
     LET x == Mul(N((i - 1) \div nc), dk) y == Mul(N(((i - 1) % nc) - h), dk) v == KVal(p, <<x, y>>)
         s == Div(IF i <= nc THEN "1" ELSE "2", Sq(N(n))) IN
     <<x, y, Mul(s, v[1]), Mul(s, v[2])>>]
FFTTerm(p, b, z) == [k |-> "f", p |-> p, c |-> NCen(b), n |-> z.n, nk |-> z.nk, tab |-> Table(p, z.n, z.nk)]
KTerm(p, dk) == [k |-> "k", p |-> p, c |-> <<dk, dk>>, n |-> 0, nk |-> 0, tab |-> <<>>]
Wave(tab, x) == NWave(tab, x[1], x[2])
WaveSum(tab, b, c) == NWaveSum(tab, Sub(N(b[1]), c[1]), N(Width(b)), Sub(N(b[3]), c[2]), N(Height(b)))
TermAt(t, x) == \* x a pair of pixel numbers; <<re, im>>
  CASE t.k = "x" -> <<XVal(t.p, VSub(x, t.c)), "0">>
    [] t.k = "f" -> <<Wave(t.tab, VSub(x, t.c)), "0">>
    [] t.k = "k" -> KVal(t.p, <<Mul(x[1], t.c[1]), Mul(x[2], t.c[2])>>)
RECURSIVE AddTerms(_, _, _, _)
AddTerms(v, ts, x, int) ==
  IF ts = <<>> THEN v
  ELSE LET u == TermAt(ts[1], x) IN AddTerms(<<Add(v[1], IF int THEN Rint(u[1]) ELSE u[1]), Add(v[2], u[2])>>, SubSeq(ts, 2, Len(ts)), x, int)
BaseAt(im, x) == Add(im.base[1], Add(Mul(im.base[2], x[1]), Mul(im.base[3], x[2])))
PixelAt(im, x) == AddTerms(<<BaseAt(im, x), "0">>, im.terms, x, im.dt \in Ints)
\* a rounding, or an edge of the profile, that numerical noise could put on either side
\* a term that need not fit in sixteen bits
RECURSIVE Brittle(_, _, _)
Over(t, dt) == dt = "i2" /\ Lt("3e4", Abs(IF t.k = "x" THEN MaxSB(t.p) ELSE KScale(t.p)))
Brittle(ts, x, int) ==
  IF ts = <<>> THEN FALSE
  ELSE \/ (int /\ LET u == TermAt(ts[1], x)[1] f == Sub(u, Floor(u)) IN Close(f, "0.5", "0", Add("1e-5", Mul("1e-5", Abs(u)))))
       \/ (ts[1].k = "x" /\ HasT(ts[1].p, {"Box", "Pixel", "Moffat"}) /\
           \E e \in {<<"1e-6", "1e-6">>, <<"-1e-6", "-1e-6">>, <<"1e-6", "-1e-6">>, <<"-1e-6", "1e-6">>} :
              ~Close(TermAt(ts[1], x)[1], TermAt(ts[1], VAdd(x, e))[1], "1e-3", Mul("1e-9", Abs(MaxSB(ts[1].p)))))
       \/ Brittle(SubSeq(ts, 2, Len(ts)), x, int)

\* beyond its largest wave number a Moffat's transform is only kept to leading order
MofTol(p) == Add("3e-5", Mul("3e-2", p.gs.maxk_threshold))
\* absolute accuracy of a term, per pixel
TermTol(t, dt) ==
  LET eps == IF dt \in Wide THEN "2e-9" ELSE "3e-6" ex == IF HasT(t.p, {"Spergel"}) THEN "1e-6" ELSE "1e-9" IN
  CASE t.k = "x" -> Mul(Max2(eps, ex), Abs(MaxSB(t.p)))
    [] t.k = "f" -> Mul(Mul(Max2(eps, IF HasT(t.p, {"Moffat"}) THEN MofTol(t.p) ELSE "0"), KScale(t.p)), Sq(Max2("1", Div(N(t.nk), N(t.n)))))
    [] t.k = "k" -> Mul(Max2(eps, IF HasT(t.p, {"Moffat"}) THEN MofTol(t.p) ELSE "0"), KScale(t.p))
TermSum(t, b) ==
  IF t.k = "f" THEN WaveSum(t.tab, b, t.c)
  ELSE LET nx == Width(b) IN
       NSum([i \in 1..(nx * Height(b)) |-> TermAt(t, <<N(b[1] + ((i - 1) % nx)), N(b[3] + ((i - 1) \div nx))>>)[1]])

\* the image after drawing: replaced or added to
After(im, b, dt, w, t, add) ==
  [(IF im.t = "img" THEN im ELSE Img(b, dt, w, FALSE, <<"0", "0", "0">>)) EXCEPT !.b = b, !.w = w,
     !.base = IF add THEN @ ELSE <<"0", "0", "0">>, !.terms = (IF add THEN @ ELSE <<>>) \o t]
(* ------------------------------- drawKImage ------------------------------ *)
KRefusals(kw, im) ==
  LET gave == im.t = "img" undef == gave /\ im.b = <<>> size == KHas(kw, "nx") \/ KHas(kw, "ny") rec == KGet(kw, "recenter", "T") = "T"
      I1(c, e) == IF c THEN {e} ELSE {} IN
  UNION {
    I1(gave /\ im.dt \notin {"c8", "c16"}, "GalSimValueError"),
    I1(gave /\ ~KHas(kw, "scale") /\ im.w.t # "nowcs" /\ (im.w.t # "wcs" \/ im.w.k \notin {"PixelScale", "OffsetWCS"}), "any"),
    I1(gave /\ (KHas(kw, "bx0") \/ size), "GalSimIncompatibleValuesError"),
    I1(~gave /\ KHas(kw, "bx0") /\ size, "GalSimIncompatibleValuesError"),
    I1(~gave /\ KHas(kw, "bx0") /\ KBounds(kw) = <<>>, "GalSimValueError"),
    I1(~gave /\ KHas(kw, "nx") # KHas(kw, "ny"), "GalSimIncompatibleValuesError"),
    I1(KTrue(kw, "add") /\ (~gave \/ undef), "GalSimIncompatibleValuesError"),
    I1(KTrue(kw, "add") /\ rec /\ gave /\ ~undef /\ NCen(im.b) # <<N(0), N(0)>>, "GalSimIncompatibleValuesError"),
    I1(gave /\ im.const /\ ~KTrue(kw, "setup"), "GalSimImmutableError") }
KPlan(o, kw, im) ==
  LET gave == im.t = "img" /\ im.b # <<>>
      s == IF KHas(kw, "scale") THEN KGet(kw, "scale", "0") ELSE IF im.t = "img" /\ im.w.t = "wcs" THEN im.w.p[1] ELSE "0"
      auto == Le(s, "0") dk == IF auto THEN StepK(o) ELSE s
      \* as many samples as cover twice the largest wave number
      x == Div(Mul("2", MaxK(o)), dk)
      n == GoodN(x) + 1
      b0 == IF gave THEN im.b ELSE IF KHas(kw, "nx") THEN <<1, KInt(kw, "nx"), 1, KInt(kw, "ny")>> ELSE IF KHas(kw, "bx0") THEN KBounds(kw) ELSE <<1, n, 1, n>>
      c == NCen(b0)
      b == IF KGet(kw, "recenter", "T") = "T" THEN MoveB(b0, -I(c[1]), -I(c[2])) ELSE b0 IN
  [b |-> b, dk |-> dk, sized |-> ~gave /\ ~KHas(kw, "nx") /\ ~KHas(kw, "bx0"), n |-> n, unclear |-> UnclearN(x, LimRel(o))]
=============================================================================
