------------------------------ MODULE DrawTrace ------------------------------
(* Recorded drawing calls; a heap of profiles, coordinate systems and images. *)
EXTENDS Draw, TraceLib
VARIABLES l, st, dead

LaxV == [t |-> "LAX", gs |-> <<>>]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Cat(SubSeq(s, 2, Len(s)))
TF(b) == IF b THEN "T" ELSE "F"
NB(b) == IF b = <<>> THEN <<"F", "0", "0", "0", "0">> ELSE <<"T", N(b[1]), N(b[2]), N(b[3]), N(b[4])>>
\* a coordinate system in twelve words: class, pixel (0,0)'s place and the linear part there
WLook(w) ==
  CASE w.t = "nowcs" -> <<"none", "0", "0", "0", "0", "0", "0">>
    [] w.t = "wcs" -> <<w.k>> \o J(w) \o ToW(w, Z2)
    [] w.t = "fits" -> <<"GSFitsWCS">> \o SubSeq(FitsV(w, Z2), 1, 3) \o <<"0", "0", "0">>
Pick(b, f, lo, n) == b + ((f * n) \div 1000)
Spots(im, px) == [i \in 1..Len(px) |-> <<N(im.b[1] + ((px[i][1] * Width(im.b)) \div 1000)), N(im.b[3] + ((px[i][2] * Height(im.b)) \div 1000))>>]
Cplx(im) == im.dt \in {"c8", "c16"}
\* pixel values: close within the accumulated accuracy, or taken over where rounding decides
PixTol(im) == Add(Mul(IF im.dt \in Wide THEN "1e-9" ELSE "1e-6", Abs(Add(Add(Abs(im.base[1]), "1"), Abs(MaxS(<<"0">> \o [i \in 1..Len(im.terms) |-> IF im.terms[i].k = "x" THEN Abs(MaxSB(im.terms[i].p)) ELSE KScale(im.terms[i].p)]))))), 
              SumS([i \in 1..Len(im.terms) |-> Mul(IF im.terms[i].fits THEN "1000" ELSE "1", TermTol(im.terms[i], im.dt))]))
Pixels(im, ev, at) ==
  LET s == Spots(im, ev.px) k == IF Cplx(im) THEN 2 ELSE 1 tol == IF im.dt \in Ints THEN "1e-6" ELSE PixTol(im) IN
  Cat([i \in 1..Len(s) |->
     LET v == TLCEval(PixelAt(im, s[i])) o == IF Len(ev.obs) >= at + k * i THEN SubSeq(ev.obs, at + k * (i - 1) + 1, at + k * i) ELSE <<>> IN
     IF k = 2 THEN (IF o # <<>> /\ SeqClose(v, o, "1e-9", tol) THEN o ELSE v)
     ELSE IF o # <<>> /\ Close(v[1], o[1], "1e-9", tol) THEN o
     ELSE IF o # <<>> /\ (Brittle(im.terms, s[i], im.dt \in Ints) \/ \E j \in 1..Len(im.terms) : Over(im.terms[j], im.dt)) THEN o ELSE <<v[1]>>])
\* how an image looks
Look(im, ev) ==
  NB(im.b) \o <<im.dt, im.dt, TF(im.const)>> \o WLook(im.w) \o (IF im.b = <<>> THEN <<>> ELSE Pixels(im, ev, 15))
LTol == <<"1e-10", "1e-12">>

NewV(v, exp) == [k |-> "new", h |-> v, exp |-> exp, tol |-> LTol, err |-> ""]
NewE(e) == [k |-> "new", h |-> LaxV, exp |-> <<>>, tol |-> Exact, err |-> e]
ObsV(exp) == [k |-> "obs", h |-> LaxV, exp |-> exp, tol |-> LTol, err |-> ""]
ObsE(e) == [k |-> "obs", h |-> LaxV, exp |-> <<>>, tol |-> Exact, err |-> e]
SetV(v, exp) == [k |-> "set", h |-> v, exp |-> exp, tol |-> LTol, err |-> ""]

None == [t |-> "none"]
ImgOf(h, ev) == IF ev.b = 0 THEN None ELSE h[ev.b]
WcsOf(h, ev) == IF ev.d = 0 THEN NoW ELSE h[ev.d]
ObsB(ev) == IF Len(ev.obs) < 5 \/ ev.obs[1] # "T" THEN <<>> ELSE [i \in 1..4 |-> I(ev.obs[i + 1])]

\* flux reported: the drawn pixels' sum over the flux scaling
FluxTol(t, im, fs) ==
  LET np == N(Width(im.b) * Height(im.b))
      s == IF t.k = "x" THEN SumS(<<"1">>) ELSE "1" IN
  Div(Add(Mul(IF im.dt \in Wide THEN "1e-8" ELSE "1e-5", KScale(t.p)),
          Add(IF t.fits \/ HasT(t.p, {"Moffat", "Spergel"}) THEN Mul("2e-4", KScale(t.p)) ELSE "0", IF im.dt \in Ints THEN Mul("0.5", np) ELSE "0")), Abs(fs))
DrawCall(h, ev) ==
  LET o == h[ev.a] im == ImgOf(h, ev) wa == WcsOf(h, ev) m == ev.s kw == ev.kw
      bad == Refusals(o, kw, m, wa, im) IN
  IF bad # {} THEN (IF ev.b = 0 \/ ev.mode = "jit" THEN NewE(OneErr(bad)) ELSE ObsE(OneErr(bad)))
  ELSE
    LET pl == TLCEval(Plan(o, kw, m, wa, im)) dt == IF im.t = "img" THEN im.dt ELSE KGet(kw, "dtype", "f4")
        setup == KTrue(kw, "setup") add == KTrue(kw, "add")
        z == IF pl.fft /\ ~setup THEN FFTSize(pl.p, pl.b) ELSE [n |-> 0, nk |-> 0, unclear |-> FALSE, short |-> FALSE]
        lax == pl.unclear \/ z.unclear
        fits == pl.w.t = "fits" IN
    IF lax /\ PrintT("NOTE undecided") THEN [k |-> "lax", h |-> LaxV, exp |-> <<>>, tol |-> Exact, err |-> "?"]
    ELSE IF (z.short \/ z.nk > I(pl.p.gs.maximum_fft_size)) /\ PrintT("NOTE refused size") THEN LET e == IF z.short THEN "any" ELSE "GalSimFFTSizeError" IN
       (IF im.t = "img" /\ im.b # <<>> /\ ev.mode # "jit" THEN ObsE(e) ELSE [k |-> IF im.t = "img" THEN "lax" ELSE "new", h |-> LaxV, exp |-> <<>>, tol |-> Exact, err |-> e])
    \* too many samples to work out here
    ELSE IF z.nk > 72 /\ PrintT("NOTE too large") THEN [k |-> "lax", h |-> LaxV, exp |-> <<>>, tol |-> Exact, err |-> "?"]
    ELSE
      LET t0 == IF PrintT(IF pl.fft THEN "NOTE fourier" ELSE "NOTE direct") /\ pl.fft THEN FFTTerm(pl.p, pl.b, z) ELSE DirTerm(pl.p, pl.b)
          t == TLCEval([f \in DOMAIN t0 \cup {"fits"} |-> IF f = "fits" THEN fits ELSE t0[f]])
          nb == IF ev.mode = "jit" THEN [im EXCEPT !.w = pl.w] ELSE im
          new == IF setup THEN (IF im.t = "img" THEN [im EXCEPT !.b = pl.b, !.w = pl.w] ELSE Img(pl.b, dt, pl.w, FALSE, <<"0", "0", "0">>))
                 ELSE After(im, pl.b, dt, pl.w, <<t>>, add)
          fl == IF setup THEN "0" ELSE Div(TermSum(t, pl.b), pl.fs)
          \* the observation: same object?, flux reported, then the image
          ftol == IF setup THEN "0" ELSE FluxTol(t, new, pl.fs)
          brit == ~setup /\ ((t.k = "x" /\ HasT(t.p, {"Box", "Pixel"})) \/ Over(t, new.dt))
          fo == IF Len(ev.obs) >= 2 /\ (Close(fl, ev.obs[2], "1e-9", ftol) \/ brit) THEN ev.obs[2] ELSE fl
          exp == <<TF(im.t = "img" /\ ev.mode # "jit"), fo>> \o Look(new, [ev EXCEPT !.obs = IF Len(@) > 2 THEN SubSeq(@, 3, Len(@)) ELSE <<>>]) IN
      IF im.t = "img" /\ ev.mode # "jit" THEN SetV(new, exp) ELSE NewV(new, exp)
KDrawCall(h, ev) ==
  LET o == h[ev.a] im == ImgOf(h, ev) kw == ev.kw bad == KRefusals(kw, im) IN
  IF bad # {} THEN (IF ev.b = 0 \/ ev.mode = "jit" THEN NewE(OneErr(bad)) ELSE ObsE(OneErr(bad)))
  ELSE
    LET p0 == KPlan(o, kw, im)
        seen == IF Len(ev.obs) >= 12 THEN ev.obs[12] ELSE "0"
        \* a spacing found by the profile itself
        pl == TLCEval([p0 EXCEPT !.dk = IF (~KHas(kw, "scale") \/ Le(KGet(kw, "scale", "0"), "0")) /\ Close(p0.dk, seen, "1e-7", "0") THEN seen ELSE p0.dk]) dt == IF im.t = "img" THEN im.dt ELSE "c16" w == Flat6("PixelScale", <<pl.dk>>, Z2, Z2)
        setup == KTrue(kw, "setup") t0 == KTerm(o, pl.dk) t == [f \in DOMAIN t0 \cup {"fits"} |-> IF f = "fits" THEN FALSE ELSE t0[f]]
        new == IF setup THEN (IF im.t = "img" THEN [im EXCEPT !.b = pl.b, !.w = w] ELSE Img(pl.b, dt, w, FALSE, <<"0", "0", "0">>))
               ELSE After(im, pl.b, dt, w, <<t>>, KTrue(kw, "add"))
        \* the pixels move with their image when it is recentred
        new1 == IF im.t = "img" /\ im.b # <<>> /\ pl.b # im.b /\ setup THEN [new EXCEPT !.base = <<BaseAt(im, <<N(im.b[1] - pl.b[1]), N(im.b[3] - pl.b[3])>>), im.base[2], im.base[3]>>, !.terms = <<>>] ELSE new
        exp == <<TF(im.t = "img" /\ ev.mode # "jit"), "0">> \o Look(new1, [ev EXCEPT !.obs = IF Len(@) > 2 THEN SubSeq(@, 3, Len(@)) ELSE <<>>]) IN
    \* a sheet of frequencies too large to hold may be refused
    IF pl.sized /\ (pl.unclear \/ pl.b[2] - pl.b[1] > 3000) THEN [k |-> "lax", h |-> LaxV, exp |-> <<>>, tol |-> Exact, err |-> "?"]
    ELSE IF im.t = "img" /\ ev.mode # "jit" THEN (IF setup /\ pl.b # im.b /\ im.terms # <<>> THEN [k |-> "lax", h |-> LaxV, exp |-> <<>>, tol |-> Exact, err |-> "?"] ELSE SetV(new1, exp)) ELSE NewV(new1, exp)

\* coordinate systems of a drawing
MkWcs(ev) ==
  IF ev.c = "FitsWCS" THEN ReadFits(ev.hdr)
  ELSE LET k == Len(ev.n) IN Flat6(ev.c, SubSeq(ev.n, 1, k - 4), SubSeq(ev.n, k - 3, k - 2), SubSeq(ev.n, k - 1, k))
MkImg(h, ev) ==
  LET n == ev.n w == WcsOf(h, ev) IN
  IF Len(n) = 0 THEN Img(<<>>, ev.s, w, FALSE, <<"0", "0", "0">>)
  ELSE Img([i \in 1..4 |-> I(n[i])], ev.s, w, ev.c = "const", SubSeq(n, 5, 7))
ProfOp(op) == op \notin {"wcs", "img", "draw", "kdraw", "see", "bad"}
Do(h, ev) ==
  CASE ev.op = "wcs" -> NewV(MkWcs(ev), <<>>)
    [] ev.op = "img" -> NewV(MkImg(h, ev), Look(MkImg(h, ev), ev))
    [] ev.op = "see" -> ObsV(Look(h[ev.b], ev))
    [] ev.op = "draw" -> DrawCall(h, ev)
    [] ev.op = "kdraw" -> KDrawCall(h, ev)
    [] ev.op = "bad" -> ObsE("any")
    \* interpolation tables of the implementation end there
    [] ev.op = "leaf" /\ ev.s = "Moffat" /\ (\E g \in 1..Len(ev.gs) : ev.gs[g][1] = "maxk_threshold" /\ Lt("0.1", ev.gs[g][2])) -> NewE("ValueError")
    [] OTHER -> LET r == Call(h, ev) IN IF r.err # "" \/ Degenerate(r.o) THEN NewE("?") ELSE NewV(r.o, <<>>)
Refs(ev) == {ev.a, ev.b, ev.d} \cup {ev.hs[i] : i \in 1..Len(ev.hs)}
News(ev) == ev.op \notin {"see", "bad"} /\ ~(ev.op \in {"draw", "kdraw"} /\ ev.b > 0 /\ ev.mode # "jit")
Sig(h, ev) == ev.op \o "/" \o ev.s \o "/" \o ev.mode \o (IF ev.b > 0 /\ ev.b <= Len(h) /\ h[ev.b].t = "img" THEN "/" \o h[ev.b].dt ELSE "")
Step(h, ev) ==
  IF \E x \in Refs(ev) : x > 0 /\ (x > Len(h) \/ h[x].t = "LAX") THEN
     [st |-> IF News(ev) THEN Append(h, LaxV) ELSE IF ev.b > 0 /\ ev.b <= Len(h) /\ ev.op \in {"draw", "kdraw"} THEN [h EXCEPT ![ev.b] = LaxV] ELSE h,
      exp |-> <<>>, err |-> "?", tol |-> Exact, clause |-> ev.op]
  ELSE LET r == TLCEval(Do(h, ev)) c == Sig(h, ev)
           nh == IF News(ev) THEN Append(h, r.h) ELSE IF r.k = "set" \/ r.k = "lax" THEN [h EXCEPT ![ev.b] = r.h] ELSE h IN
       IF r.err # "" THEN Err(nh, r.err, c) ELSE Ok(nh, r.exp, r.tol, c)

TInit == l = 1 /\ st = <<>> /\ dead = FALSE
TNext ==
  /\ l <= Len(Tr) /\ l' = l + 1
  /\ LET ev == Tr[l] IN
     IF ev.op = "reset" THEN st' = <<>> /\ dead' = FALSE
     ELSE IF dead THEN UNCHANGED <<st, dead>>
     ELSE LET r == Step(st, ev) IN LET ok == Matches(r, ev) IN
          st' = r.st /\ dead' = ~ok /\ (IF ok THEN TRUE ELSE Report(l, r, ev))
  /\ (l = Len(Tr) => PrintT("DONE " \o ToString(l)))
=============================================================================
