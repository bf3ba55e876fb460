-------------------------------- MODULE DrawMC --------------------------------
(***************************************************************************)
(* Model checking of the drawing specification: histories of draws into one *)
(* image, every combination of where / how large / which coordinate system  *)
(* / which scaling, against the meaning of a drawing stated on the sky:     *)
(* pixel x gets  base + sum over what was added of                          *)
(*     area exptime / gain * |det J| * o(J (x - place)).                    *)
(***************************************************************************)
EXTENDS Draw, TLC
CONSTANTS Depth, Big
VARIABLES im, log

GS0 == GSWith(GSDefault, << <<"minimum_fft_size", "16">> >>)
G == Leaf("Gaussian", <<"0.8">>, "2.5", GS0)
TG == Transform(G, <<"1.1", "0.2", "-0.1", "0.9">>, <<"0.3", "-0.2">>, "1.5")
E == Leaf("Exponential", <<"0.4">>, "-3.0", GSWith(GS0, << <<"folding_threshold", "0.05">>, <<"maxk_threshold", "0.02">>, <<"stepk_minimum_hlr", "2.5">> >>))
Profs == IF Big THEN {TG, G, SumOf(<<G, E>>), E} ELSE {TG, G}
WScale == Flat6("PixelScale", <<"0.7">>, Z2, Z2)
WJac == Flat6("JacobianWCS", <<"0.6", "0.1", "-0.2", "-0.8">>, Z2, Z2)
WAff == Flat6("AffineTransform", <<"0.5", "-0.1", "0.2", "0.9">>, <<"3.2", "-1.0">>, <<"10", "20">>)
Ws == {WScale, WJac, WAff}
Places == { <<>>, << <<"ox", "0.4">>, <<"oy", "-1.3">> >>, << <<"cx", "5.2">>, <<"cy", "3.9">> >>,
            << <<"cx", "4.0">>, <<"cy", "2.5">>, <<"ox", "0.25">>, <<"oy", "0.5">> >>, << <<"true", "F">> >>,
            << <<"true", "F">>, <<"ox", "-0.7">>, <<"oy", "0.1">> >> }
Scales == { <<>>, << <<"gain", "2.0">>, <<"exptime", "3.0">> >> } \cup (IF Big THEN { << <<"area", "0.4">> >> } ELSE {})
SizeArgs == { << <<"nx", "6">>, <<"ny", "5">> >>, << <<"nx", "7">>, <<"ny", "4">> >>, << <<"bx0", "-2">>, <<"bx1", "4">>, <<"by0", "3">>, <<"by1", "8">> >>, <<>> }
Images == {NoW, Img(<<>>, "f8", WJac, FALSE, <<"0", "0", "0">>), Img(<<2, 7, -1, 5>>, "f8", WScale, FALSE, <<"1", "2", "-3">>), Img(<<-3, 3, 2, 9>>, "f8", NoW, FALSE, <<"0.5", "0", "1">>)}
Ms == {"no_pixel", "sb", "auto"}

Init == im \in Images /\ log = <<>>
\* a direct drawing costs nothing; the transforms only with two kinds of placing
Do(o, m, w, kw) ==
  LET pl == TLCEval(Plan(o, kw, m, w, im))
      z == IF pl.fft THEN FFTSize(pl.p, pl.b) ELSE [n |-> 0, nk |-> 0, unclear |-> FALSE, short |-> FALSE]
      t == IF pl.fft THEN FFTTerm(pl.p, pl.b, z) ELSE DirTerm(pl.p, pl.b) IN
  /\ ~pl.unclear /\ ~z.unclear /\ ~z.short
  /\ im' = TLCEval(After(im, pl.b, "f8", pl.w, <<[f \in DOMAIN t \cup {"fits"} |-> IF f = "fits" THEN FALSE ELSE t[f]]>>, KTrue(kw, "add")))
  /\ log' = Append(log, [o |-> o, m |-> m, kw |-> kw, w |-> w, had |-> im, z |-> z])
Next ==
  /\ Len(log) < Depth
  /\ \E o \in Profs, m \in Ms, w \in Ws \cup {NoW}, pl \in Places, sc \in Scales, si \in SizeArgs, add \in BOOLEAN :
       LET kw == pl \o sc \o si \o (IF add THEN << <<"add", "T">> >> ELSE <<>>) IN
       /\ (Len(log) > 0 => add /\ sc = <<>> /\ m = "no_pixel" /\ o = TG)
       /\ (m = "auto" => sc # <<>> /\ w \in {NoW, WJac} /\ (Big \/ o = TG \/ (o = G /\ pl = <<>> /\ si # <<>>)) /\ ~add)
       /\ Refusals(o, kw, m, w, im) = {} /\ Do(o, m, w, kw)

(* ------------------------------ meaning ---------------------------------- *)
Jac(o, c) == J(DrawWcs(o, c.kw, c.w, c.had))
Scaling(c) == Div(Mul(KGet(c.kw, "area", "1"), KGet(c.kw, "exptime", "1")), KGet(c.kw, "gain", "1"))
\* the point of the image the profile's origin is put at, given the bounds that came out
PlaceOf(c, b) == VAdd(KPos(c.kw, "o"), IF KHas(c.kw, "cx") THEN KPos(c.kw, "c") ELSE IF KGet(c.kw, "true", "T") = "T" THEN TCen(b) ELSE NCen(b))
\* where the centre is counted from before the image has a size
Meaning(c, b, x) ==
  LET j == Jac(c.o, c) IN
  Mul(Mul(Scaling(c), IF c.m = "sb" THEN "1" ELSE PixArea(j)), XVal(c.o, MatVec(j, VSub(x, PlaceOf(c, b)))))
Eq9(a, b) == Close(a, b, "1e-9", "1e-9")
Corners(b) == { <<N(b[1]), N(b[3])>>, <<N(b[2]), N(b[3])>>, <<N((b[1] + b[2]) \div 2), N((b[3] + b[4]) \div 2)>>, <<N(b[2]), N(b[4])>> }
RECURSIVE SumOfAll(_, _, _)
SumOfAll(lg, b, x) ==   \* everything since the image was last overwritten
  IF lg = <<>> THEN "0"
  ELSE LET c == lg[Len(lg)] IN Add(Meaning(c, b, x), IF KTrue(c.kw, "add") THEN SumOfAll(SubSeq(lg, 1, Len(lg) - 1), b, x) ELSE "0")
RECURSIVE KeptBase(_)
KeptBase(lg) == lg = <<>> \/ (KTrue(lg[Len(lg)].kw, "add") /\ KeptBase(SubSeq(lg, 1, Len(lg) - 1)))
Direct == \A i \in 1..Len(log) : log[i].m # "auto"
L == log[Len(log)]

\* an image without bounds is given them about its own centre, whatever centre was asked for (as the reference library does)
Unplaced == \E i \in 1..Len(log) : KHas(log[i].kw, "cx") /\ log[i].had.t = "img" /\ log[i].had.b = <<>>
PixelLaw == log # <<>> /\ Direct /\ ~Unplaced =>
  \A x \in Corners(im.b) :
    LET h == log[1].had b0 == IF h.t = "img" /\ KeptBase(log) THEN BaseAt(h, x) ELSE "0" IN
    Eq9(PixelAt(im, x)[1], Add(b0, SumOfAll(log, im.b, x)))
SizeLaw == log # <<>> =>
  /\ (L.had.t = "img" /\ L.had.b # <<>> => im.b = L.had.b)
  /\ (KHas(L.kw, "nx") => Width(im.b) = KInt(L.kw, "nx") /\ Height(im.b) = KInt(L.kw, "ny"))
  /\ (KHas(L.kw, "bx0") => im.b = KBounds(L.kw))
  /\ (KHas(L.kw, "nx") /\ ~KHas(L.kw, "cx") => im.b[1] = 1 /\ im.b[3] = 1)
  \* the requested centre is within half a pixel of the image's
  /\ (KHas(L.kw, "cx") /\ KHas(L.kw, "nx") => \A i \in 1..2 : Le(Abs(Sub(TCen(im.b)[i], KPos(L.kw, "c")[i])), "0.500000001"))
  \* a size found by the profile is square and holds almost all of the light
  /\ (~KHas(L.kw, "nx") /\ ~KHas(L.kw, "bx0") /\ (L.had.t # "img" \/ L.had.b = <<>>) =>
        /\ Width(im.b) = Height(im.b) /\ Width(im.b) % 2 = 0
        /\ (Len(log) = 1 /\ L.m = "no_pixel" /\ ~KHas(L.kw, "ox") /\ ~KHas(L.kw, "cx") /\ L.w # NoW /\ ~HasT(L.o, {"Exponential"}) => Close(TermSum(im.terms[1], im.b), Mul(Scaling(L), Flux(L.o)), "2e-2", "0")))
\* the transform's samples: all of the flux in one period, the pixel's integral in each pixel
FourierLaw == log # <<>> /\ L.m = "auto" /\ ~Unplaced =>
  LET t == im.terms[Len(im.terms)] f == Mul(Scaling(L), Flux(L.o)) j == Jac(L.o, L) IN
  /\ t.n % 2 = 0 /\ t.n >= Width(im.b) /\ t.n >= Height(im.b)
  /\ Close(TermSum(t, <<1, t.n, 1, t.n>>), f, "1e-9", "1e-9")
  /\ \A x \in Corners(im.b) :
       \* Simpson's rule with 25 points over the pixel
       LET w == <<"1", "4", "2", "4", "1">>
           q == NSum([k \in 1..25 |-> LET a == (k - 1) \div 5 b == (k - 1) % 5 IN
                  Mul(Div(Mul(w[a + 1], w[b + 1]), "144"),
                      XVal(L.o, MatVec(j, VSub(VAdd(x, <<Sub(Div(N(a), "4"), "0.5"), Sub(Div(N(b), "4"), "0.5")>>), PlaceOf(L, im.b)))))]) IN
       HasT(L.o, {"Exponential"}) \/ Close(PixelAt(im, x)[1], Mul(Mul(Scaling(L), PixArea(j)), q), "0", Mul("4e-3", Abs(f)))
\* moving the profile on the sky is moving it on the image
ShiftLaw == Len(log) = 1 /\ (L.had.t # "img" \/ L.had.b = <<>> \/ L.m # "auto") /\ L.m # "auto" =>
  LET c == L d == <<"0.3", "-0.45">> j == Jac(c.o, c)
      kw2 == <<<<"ox", Add(KPos(c.kw, "o")[1], d[1])>>, <<"oy", Add(KPos(c.kw, "o")[2], d[2])>>>> \o c.kw
      p1 == Plan(c.o, kw2, c.m, DrawWcs(c.o, c.kw, c.w, c.had), [c.had EXCEPT !.t = @])
      p2 == Plan(Transform(c.o, I2, MatVec(j, d), "1"), c.kw, c.m, DrawWcs(c.o, c.kw, c.w, c.had), c.had) IN
  p1.b = p2.b => \A x \in Corners(p1.b) : Eq9(TermAt(DirTerm(p1.p, p1.b), x)[1], TermAt(DirTerm(p2.p, p2.b), x)[1])
\* Fourier images: the flux sits at the centre, an automatic image covers all wave numbers
KLaw == log = <<>> =>
  \A o \in Profs, kw \in { <<>>, << <<"nx", "5">>, <<"ny", "6">> >>, << <<"scale", "0.3">> >>, << <<"bx0", "2">>, <<"bx1", "7">>, <<"by0", "2">>, <<"by1", "6">>, <<"scale", "0.2">> >> } :
    LET p == KPlan(o, kw, NoW) t == KTerm(o, p.dk) IN
    /\ NCen(p.b) = <<N(0), N(0)>>
    /\ LET v == TermAt(t, Z2) IN Eq9(v[1], Flux(o)) /\ Eq9(v[2], "0")
    /\ (p.sized => Width(p.b) % 2 = 1 /\ Le(MaxK(o), Mul(p.dk, Add(Half(N(Width(p.b))), "1"))))
    /\ (Width(p.b) # 6 => LET a == TermAt(t, <<"2", "-1">>) b == TermAt(t, <<"-2", "1">>) IN Eq9(a[1], b[1]) /\ Eq9(a[2], NNeg(b[2])))
=============================================================================
