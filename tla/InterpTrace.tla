------------------------------ MODULE InterpTrace ------------------------------
(* Recorded kernels and interpolated images. h: what was made, in order.  *)
EXTENDS Interp, TraceLib
VARIABLES l, st, dead

Lax == [t |-> "LAX"]
S0 == <<>>
KHas(kw, k) == \E i \in 1..Len(kw) : kw[i][1] = k
KGet(kw, k, d) == IF KHas(kw, k) THEN (CHOOSE p \in {kw[i] : i \in 1..Len(kw)} : p[1] = k)[2] ELSE d
TF(b) == IF b THEN "T" ELSE "F"
R(new, v, exp, tol, err) == [new |-> new, v |-> v, exp |-> exp, tol |-> tol, err |-> err]
New(v, exp, tol) == R(TRUE, v, exp, tol, "")
NewE(e) == R(TRUE, Lax, <<>>, Exact, e)
Obs(exp, tol) == R(FALSE, Lax, exp, tol, "")
ObsE(e) == R(FALSE, Lax, <<>>, Exact, e)
ITol == <<"1e-10", "1e-11">>
Part(s, at, n) == IF Len(s) >= at + n THEN SubSeq(s, at + 1, at + n) ELSE [i \in 1..n |-> "missing"]
\* accept a component that is close in its own way
Like(want, got, rt, at) == IF Len(want) = Len(got) THEN [i \in 1..Len(want) |-> IF Close(want[i], got[i], rt, at) THEN got[i] ELSE want[i]] ELSE want

(* -------------------------------- kernels -------------------------------- *)
Names == {"Delta", "Nearest", "Linear", "Cubic", "Quintic", "Sinc", "Lanczos"}
GSDef == [fold |-> "0.005", maxk |-> "0.001", kva |-> "1e-5", ts |-> "1"]
GSWith(g, kw) == [fold |-> KGet(kw, "folding_threshold", g.fold), maxk |-> KGet(kw, "maxk_threshold", g.maxk),
                  kva |-> KGet(kw, "kvalue_accuracy", g.kva), ts |-> KGet(kw, "table_spacing", g.ts)]
Desc(K) == <<K.name, XRange(K), N(IXRange(K)), K.kva>> \o (IF K.name = "Lanczos" THEN <<N(K.n), TF(K.dc), IF Ends(K, K.kr) THEN K.kr ELSE "nan">> ELSE <<KRange(K)>>)
Kr(K, ev) == IF K.name = "Lanczos" THEN [K EXCEPT !.kr = ev.kr] ELSE K
MakeK(ev) ==
  IF ev.s \notin Names THEN NewE(IF ev.how = "class" THEN "?" ELSE "GalSimValueError")
  ELSE IF ev.s = "Lanczos" /\ ev.n = <<>> THEN NewE(IF ev.how = "class" THEN "any" ELSE "GalSimValueError")
  ELSE LET g == GSWith(GSDef, ev.kw) K == Kr(Kernel(ev.s, IF ev.n = <<>> THEN 0 ELSE I(ev.n[1]), ev.c # "F", g.kva, g.ts), ev) IN
       New(K, Desc(K), ITol)
WithK(K, kw) == Kernel(K.name, K.n, K.dc, KGet(kw, "kvalue_accuracy", K.kva), KGet(kw, "table_spacing", K.ts))
\* closed forms to rounding; a Lanczos transform is tabulated
KTol(K) == IF K.name = "Lanczos" THEN <<"1e-6", IF K.n = 1 THEN Add("2e-5", K.kva) ELSE Add("1e-6", Half(K.kva))>> ELSE <<"1e-9", "1e-11">>
PTol(K) == CASE K.name = "Quintic" -> "1e-5" [] K.name = "Lanczos" -> "1e-5" [] OTHER -> "1e-8"
KEv(h, ev) ==
  LET K == IF ev.a > 0 THEN h[ev.a] ELSE Lax IN
  CASE ev.op = "kern" -> MakeK(ev)
    [] ev.a > 0 /\ K.t = "LAX" -> R(ev.op = "kgs", Lax, <<>>, Exact, "?")
    [] ev.op = "kgs" -> LET q == Kr(WithK(K, ev.kw), ev) IN New(q, Desc(q), ITol)
    [] ev.op = "parts" -> Obs(Parts(K), <<PTol(K), PTol(K)>>)
    [] ev.op = "units" ->
         LET m == IF ev.n = <<>> THEN Units(K) ELSE MinI(I(ev.n[1]), Units(K)) IN
         Obs([i \in 1..m |-> Unit(K, i - 1)], <<"0", IF K.name = "Quintic" THEN "1e-7" ELSE "1e-8">>)
    [] ev.op = "xval" ->
         IF ev.s = "2d" THEN ObsE("GalSimValueError")
         ELSE Obs([i \in 1..Len(ev.n) |-> XVal(K, ev.n[i])], <<"1e-9", "1e-11">>)
    [] ev.op = "kval" ->
         IF ev.s = "2d" THEN ObsE("GalSimValueError")
         ELSE Obs([i \in 1..Len(ev.n) |-> KVal(K, ev.n[i])], KTol(K))
    [] ev.op = "keq" ->
         LET K2 == h[ev.b] IN
         IF K2.t = "LAX" THEN ObsE("?")
         ELSE LET same == K.name = K2.name /\ K.n = K2.n /\ (K.name # "Lanczos" \/ K.dc = K2.dc) /\ NEq(K.kva, K2.kva) /\ NEq(K.ts, K2.ts)
                  hash == IF same THEN "T" ELSE IF Len(ev.obs) > 2 THEN ev.obs[3] ELSE "F" IN
              Obs(<<TF(same), TF(~same), hash>>, Exact)

(* --------------------------- interpolated images -------------------------- *)
Rows(nx, ny, px) == [j \in 1..ny |-> [i \in 1..nx |-> px[(j - 1) * nx + i]]]
MakeImg(ev) ==
  LET nx == I(ev.n[1]) ny == I(ev.n[2]) IN
  New([t |-> "img", nx |-> nx, ny |-> ny, px |-> IF nx = 0 THEN <<>> ELSE Rows(nx, ny, ev.px), dt |-> KGet(ev.kw, "dtype", "f8"),
       jac |-> IF KHas(ev.kw, "scale") THEN <<KGet(ev.kw, "scale", "1"), "0", "0", KGet(ev.kw, "scale", "1")>>
               ELSE IF Len(ev.jac) = 4 THEN ev.jac ELSE <<>>], <<>>, Exact)
\* the kernel named in the call, given the parameters of the profile
KerOf(h, hnd, name, n, c, g) ==
  IF hnd > 0 THEN Kernel(h[hnd].name, h[hnd].n, h[hnd].dc, g.kva, g.ts)
  ELSE Kernel(IF name = "" THEN "Quintic" ELSE name, n, c # "F", g.kva, g.ts)
Offset(im, kw) ==
  LET t == KGet(kw, "utc", "T") = "T" IN
  <<Sub(KGet(kw, "ox", "0"), IF t /\ im.nx % 2 = 0 THEN "0.5" ELSE "0"),
    Sub(KGet(kw, "oy", "0"), IF t /\ im.ny % 2 = 0 THEN "0.5" ELSE "0")>>
Raw(kw) == KHas(kw, "raw")      \* made by _InterpolatedImage
BadName(s) == s # "" /\ s \notin Names
RaisesII(h, im, ev) ==
  LET kw == ev.kw norm == KGet(kw, "norm", "flux")
      scaled == (KHas(kw, "scale") \/ Len(ev.jac) = 4) IN
  CASE im.t # "img" -> "TypeError"
    [] im.dt \notin {"f4", "f8"} -> "GalSimValueError"
    [] im.nx = 0 -> "GalSimUndefinedBoundsError"
    [] norm \notin {"flux", "f", "F", "Flux", "sb", "SB", "surface brightness", "Surface Brightness"} -> "GalSimValueError"
    [] BadName(ev.s) \/ BadName(ev.c) -> "GalSimValueError"
    [] KHas(kw, "pad_image") \/ KHas(kw, "noise_pad") \/ KHas(kw, "noise_pad_size") -> "NotImplementedError"
    [] Le(KGet(kw, "pad", "4"), "0") -> "GalSimRangeError"
    [] KHas(kw, "scale") /\ Len(ev.jac) = 4 -> "GalSimIncompatibleValuesError"
    [] KHas(kw, "badwcs") -> "TypeError"
    [] ~scaled /\ im.jac = <<>> -> "GalSimIncompatibleValuesError"
    [] OTHER -> LET tot == NSum([j \in 1..im.ny |-> NSum(im.px[j])]) IN
                IF NEq(tot, "0") /\ (KGet(kw, "stepk", "T") # "F" \/ KGet(kw, "maxk", "T") # "F" \/ KHas(kw, "flux")) THEN "any"
                ELSE IF KHas(kw, "depixelize") THEN "NotImplementedError"
                ELSE ""
IIOf(h, im, ev) ==
  LET kw == ev.kw g == GSWith(GSDef, ev.gs)
      jac == IF KHas(kw, "scale") THEN <<KGet(kw, "scale", "1"), "0", "0", KGet(kw, "scale", "1")>>
             ELSE IF Len(ev.jac) = 4 THEN ev.jac ELSE im.jac
      tot == NSum([j \in 1..im.ny |-> NSum(im.px[j])])
      sb == KGet(kw, "norm", "flux") \in {"sb", "SB", "surface brightness", "Surface Brightness"}
      amp == IF KHas(kw, "flux") THEN Div(Div(KGet(kw, "flux", "1"), tot), Det(jac)) ELSE IF sb THEN "1" ELSE Div("1", Det(jac)) IN
  [t |-> "ii", px |-> im.px, nx |-> im.nx, ny |-> im.ny, off |-> Offset(im, kw), jac |-> jac, amp |-> amp,
   xk |-> Kr(KerOf(h, ev.b, ev.s, I(KGet(kw, "xn", "3")), KGet(kw, "xdc", "T"), g), ev), kk |-> KerOf(h, ev.d, ev.c, I(KGet(kw, "kn", "3")), KGet(kw, "kdc", "T"), g),
   modes |-> Modes(im.nx, im.ny, IF Raw(kw) THEN "1" ELSE KGet(kw, "pad", "4")), gs |-> g,
   smode |-> IF Raw(kw) THEN "F" ELSE KGet(kw, "stepk", "T"), kmode |-> IF Raw(kw) THEN "F" ELSE KGet(kw, "maxk", "T"),
   fstep |-> IF Raw(kw) THEN KGet(kw, "force_stepk", "0") ELSE "0", fmax |-> IF Raw(kw) THEN KGet(kw, "force_maxk", "0") ELSE "0", plain |-> TRUE, fixed |-> KHas(kw, "flux") \/ Raw(kw)]
Positive2(o) == \A j \in 1..o.ny : \A i \in 1..o.nx : Le("0", o.px[j][i])
\* one number each; those only known to the quadrature are matched loosely
Look(o, got) ==
  LET c == IF NEq(PixSum(o), "0") THEN Part(got, 1, 2) ELSE Centroid2(o)
      base == <<Flux2(o), c[1], c[2], MaxSB2(o)>>
      pn == PosNeg2(o) t == IF o.xk.name \in {"Quintic", "Lanczos"} THEN "3e-5" ELSE "1e-7"
      lim == IF ~o.plain THEN Part(got, 4, 2)
             ELSE <<IF Lt("0", o.fstep) THEN o.fstep ELSE StepK2(o),
                    IF Lt("0", o.fmax) THEN o.fmax ELSE MaxK2(o)>> IN
  base \o lim \o <<IF o.xk.name = "Lanczos" /\ ~Ends(o.xk, o.xk.kr) THEN "nan" ELSE KRange(o.xk)>> \o Like(pn, Part(got, 7, 2), t, Mul(t, Abs(Add(pn[1], pn[2]))))
\* how well a value of this profile is known
Scale2(o) == Max2(Abs(Mul(o.amp, Det(o.jac))), Abs(o.amp))
Lim(o) == LET q == PixAbs(o) IN Mul(Scale2(o), Add(q[1], q[2]))
XTol(o) == <<"1e-8", Mul("1e-10", Lim(o))>>
KTol2(o) == <<"1e-8", Mul(IF o.xk.name = "Lanczos" THEN Add("4e-6", o.gs.kva) ELSE "1e-10", Lim(o))>>
Pairs(n) == Len(n) \div 2
Cat2(s) == LET m == Len(s) IN [i \in 1..(2 * m) |-> s[(i + 1) \div 2][IF i % 2 = 1 THEN 1 ELSE 2]]
\* pixel centres of an nx by ny grid drawn around its true middle
At2(n, i) == Sub(N(i), Half(N(n + 1)))
AffineOf(s, n) ==
  CASE s = "rotate" -> <<Cos(n[1]), NNeg(Sin(n[1])), Sin(n[1]), Cos(n[1])>>
    [] s = "dilate" -> <<n[1], "0", "0", n[1]>>
    [] s = "expand" -> <<n[1], "0", "0", n[1]>>
    [] s = "shear" -> LET d == Div("1", Sqrt(Sub(Sub("1", Sq(n[1])), Sq(n[2])))) IN
                      <<Mul(d, Add("1", n[1])), Mul(d, n[2]), Mul(d, n[2]), Mul(d, Sub("1", n[1]))>>
    [] s = "transform" -> <<n[1], n[2], n[3], n[4]>>
    [] OTHER -> <<"1", "0", "0", "1">>
Moved(o, s, n) ==
  LET m == AffineOf(s, n) j == MM(m, o.jac)
      d == IF s = "shift" THEN n ELSE <<"0", "0">> e == MV(Inv(j), d) IN
  [o EXCEPT !.jac = j, !.off = <<Sub(@[1], e[1]), Sub(@[2], e[2])>>, !.plain = FALSE,
            !.amp = Mul(@, CASE s = "scaleflux" -> n[1] [] s = "dilate" -> Div("1", Det(m)) [] OTHER -> "1")]
SameII(o, q) == o = q
IIEv(h, ev) ==
  LET o == IF ev.a > 0 THEN h[ev.a] ELSE Lax IN
  CASE ev.op = "img" -> MakeImg(ev)
    [] ev.op = "edit" -> Obs(<<>>, Exact)                       \* the profile keeps what it was given
    [] ev.op = "ii" ->
         LET e == RaisesII(h, o, ev) IN
         IF o.t = "LAX" /\ ev.a > 0 THEN NewE("?")
         ELSE IF (ev.b > 0 /\ h[ev.b].t = "LAX") \/ (ev.d > 0 /\ h[ev.d].t = "LAX") THEN NewE("?")
         ELSE IF e # "" THEN NewE(e)
         ELSE LET q == IIOf(h, o, ev) IN New(q, Look(q, ev.obs), <<"1e-8", Mul("1e-9", Lim(q))>>)
    [] o.t = "LAX" -> R(ev.op \in {"tr", "iigs"}, Lax, <<>>, Exact, "?")
    [] ev.op = "look" -> Obs(Look(o, ev.obs), <<"1e-8", Mul("1e-9", Lim(o))>>)
    [] ev.op = "iigs" ->
         LET g == GSWith(o.gs, ev.gs)
             q == [o EXCEPT !.gs = g, !.xk = Kr(Kernel(@.name, @.n, @.dc, g.kva, g.ts), ev), !.kk = Kernel(@.name, @.n, @.dc, g.kva, g.ts)] IN
         New(q, Look(q, ev.obs), <<"1e-8", Mul("1e-9", Lim(q))>>)
    [] ev.op = "tr" -> New(Moved(o, ev.s, ev.n), <<>>, Exact)
    [] ev.op = "xv" -> Obs([i \in 1..Pairs(ev.n) |-> XVal2(o, <<ev.n[2 * i - 1], ev.n[2 * i]>>)], XTol(o))
    [] ev.op = "kv" -> Obs(Cat2([i \in 1..Pairs(ev.n) |-> KVal2(o, <<ev.n[2 * i - 1], ev.n[2 * i]>>)]), KTol2(o))
    [] ev.op = "grad" ->    \* of a value with respect to every pixel
         LET p == <<ev.n[1], ev.n[2]>> q == MV(Inv(o.jac), p) v == IF o.fixed THEN Div(XVal2(o, p), PixSum(o)) ELSE "0"
             wx == TLCEval(Weights(o.xk, Add(q[1], o.off[1]), X0(o), o.nx)) wy == TLCEval(Weights(o.xk, Add(q[2], o.off[2]), Y0(o), o.ny)) IN
         Obs([i \in 1..(o.nx * o.ny) |-> Sub(Mul(o.amp, Mul(wx[((i - 1) % o.nx) + 1], wy[((i - 1) \div o.nx) + 1])), v)],
             <<"1e-7", Mul("1e-9", Add(Scale2(o), IF o.fixed THEN Abs(Div(Lim(o), PixSum(o))) ELSE "0"))>>)
    [] ev.op = "draw" ->
         LET nx == I(ev.n[1]) ny == I(ev.n[2]) s == ev.n[3] IN
         Obs([i \in 1..(nx * ny) |-> Mul(Sq(s), XVal2(o, <<Mul(s, At2(nx, ((i - 1) % nx) + 1)), Mul(s, At2(ny, ((i - 1) \div nx) + 1))>>))], <<"1e-7", Mul("1e-9", Lim(o))>>)
    [] ev.op = "kdraw" ->   \* centred on the middle pixel
         LET nx == I(ev.n[1]) ny == I(ev.n[2]) s == ev.n[3] IN
         Obs(Cat2([i \in 1..(nx * ny) |-> KVal2(o, <<Mul(s, N(((i - 1) % nx) - (nx \div 2))), Mul(s, N(((i - 1) \div nx) - (ny \div 2)))>>)]), KTol2(o))
    [] ev.op = "ieq" ->
         LET q == h[ev.b] IN
         IF q.t = "LAX" THEN ObsE("?")
         ELSE LET same == SameII(o, q) eq == IF same THEN "T" ELSE IF Len(ev.obs) > 0 /\ ~(ev.s = "differ") THEN ev.obs[1] ELSE "F" IN
              Obs(<<eq, IF eq = "T" THEN "F" ELSE "T", IF same THEN "T" ELSE IF Len(ev.obs) > 2 THEN ev.obs[3] ELSE "F">>, Exact)
    [] ev.op = "comb" ->    \* two such profiles together: signs multiply, transforms multiply or add
         LET q == h[ev.b] IN
         IF q.t = "LAX" THEN ObsE("?")
         ELSE LET u == PosNeg2(o) v == PosNeg2(q) con == ev.s = "conv"
                  big == IF con THEN Mul(Lim(o), Lim(q)) ELSE Add(Lim(o), Lim(q))
                  pn == IF con THEN <<Add(Mul(u[1], v[1]), Mul(u[2], v[2])), Add(Mul(u[1], v[2]), Mul(u[2], v[1]))>> ELSE <<Add(u[1], v[1]), Add(u[2], v[2])>>
                  fl == IF con THEN Mul(Flux2(o), Flux2(q)) ELSE Add(Flux2(o), Flux2(q)) IN
              Obs(Like(<<fl>>, Part(ev.obs, 0, 1), "1e-9", Mul("1e-12", big)) \o Like(pn, Part(ev.obs, 1, 2), "1e-4", Mul("1e-4", Add(Abs(pn[1]), Abs(pn[2]))))
                  \o Cat2([i \in 1..Pairs(ev.n) |-> LET k == <<ev.n[2 * i - 1], ev.n[2 * i]>> x == KVal2(o, k) y == KVal2(q, k) IN
                        Like(IF con THEN <<Sub(Mul(x[1], y[1]), Mul(x[2], y[2])), Add(Mul(x[1], y[2]), Mul(x[2], y[1]))>> ELSE <<Add(x[1], y[1]), Add(x[2], y[2])>>,
                             Part(ev.obs, 1 + 2 * i, 2), "1e-8", Mul(Add("2e-6", Add(o.gs.kva, q.gs.kva)), Mul("2", big)))]), <<"1e-9", "1e-9">>)
    [] ev.op = "shoot" ->   \* total, and the sampled transform within counting noise
         LET n == ev.n[1] ks == SubSeq(ev.n, 2, Len(ev.n)) pn == PosNeg2(o) size == Add(Abs(pn[1]), Abs(pn[2])) eta == Div(Add(pn[1], NNeg(pn[2])), Add(pn[1], pn[2]))
             sig == Mul(size, Add(Div("5.5", Sqrt(n)), "1e-3"))
             got(i) == Part(ev.obs, 1 + 2 * i, 2)
             each == Div(size, n) IN
         IF o.xk.name \in {"Sinc"} THEN ObsE("any")
         ELSE IF o.xk.name = "Delta" THEN ObsE("?")
         ELSE Obs(<<N(I(n))>> \o Like(<<Flux2(o)>>, Part(ev.obs, 1, 1), "0", sig) \o Like(<<each>>, Part(ev.obs, 2, 1), "1e-4", "0")
                  \o Cat2([i \in 1..Pairs(ks) |-> LET v == CScale(Div("1", Sq(KVal(o.xk, "0"))), KTrue2(o, <<ks[2 * i - 1], ks[2 * i]>>)) IN Like(v, got(i), "0", sig)]), <<"1e-9", "1e-9">>)

Step(s, ev) ==
  LET isk == ev.op \in {"kern", "kgs", "parts", "units", "xval", "kval", "keq"}
      r == IF isk THEN KEv(s, ev) ELSE IIEv(s, ev) IN
  [st |-> IF r.new THEN Append(s, IF Len(ev.err) > 0 THEN Lax ELSE r.v) ELSE s, exp |-> r.exp, err |-> r.err, tol |-> r.tol,
   clause |-> CASE ev.op \in {"kern", "kgs"} -> "kernel" [] ev.op \in {"parts", "units"} -> "kernel-extent" [] ev.op = "xval" -> "kernel-x" [] ev.op = "kval" -> "kernel-k"
              [] ev.op \in {"keq", "ieq"} -> "identity" [] ev.op \in {"ii", "iigs", "look"} -> "image-summary" [] ev.op \in {"xv", "draw"} -> "image-x"
              [] ev.op \in {"kv", "kdraw"} -> "image-k" [] ev.op = "shoot" -> "image-photons" [] OTHER -> ev.op]

TInit == l = 1 /\ st = S0 /\ dead = FALSE
TNext ==
  /\ l <= Len(Tr) /\ l' = l + 1
  /\ LET ev == Tr[l] IN
     IF ev.op = "reset" THEN st' = S0 /\ dead' = FALSE
     ELSE IF dead THEN UNCHANGED <<st, dead>>
     ELSE LET r == Step(st, ev) IN LET ok == Matches(r, ev) IN
          st' = r.st /\ dead' = ~ok /\ (IF ok THEN TRUE ELSE Report(l, r, ev))
  /\ (l = Len(Tr) => PrintT("DONE " \o ToString(l)))
=============================================================================
