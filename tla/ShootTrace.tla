------------------------------ MODULE ShootTrace ------------------------------
(* Recorded shooting calls.  memo: what a call with these arguments gave before. *)
EXTENDS Shoot, TraceLib
VARIABLES l, st, dead

LaxV == [t |-> "LAX", gs |-> <<>>]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Cat(SubSeq(s, 2, Len(s)))
TF(b) == IF b THEN "T" ELSE "F"
R(k, v, exp, tol, err) == [k |-> k, h |-> v, exp |-> exp, tol |-> tol, err |-> err]
STol == <<"1e-9", "1e-9">>
NewV(v, exp) == R("new", v, exp, STol, "")
NewE(e) == R("new", LaxV, <<>>, Exact, e)
Obs(exp, tol) == R("obs", LaxV, exp, tol, "")
ObsE(e) == R("obs", LaxV, <<>>, Exact, e)
Part(s, at, n) == IF Len(s) >= at + n THEN SubSeq(s, at + 1, at + n) ELSE [i \in 1..n |-> "missing"]
At(s, i) == IF Len(s) >= i THEN s[i] ELSE "missing"

(* ----------------------------- repeated calls ---------------------------- *)
Key(h, ev) == <<ev.op, IF ev.a > 0 THEN h[ev.a] ELSE LaxV, ev.n, ev.c, ev.s, SelectSeq(ev.kw, LAMBDA p : p[1] # "how"), ev.d, IF ev.b > 0 /\ ~KTrue(ev.kw, "add") THEN 0 ELSE ev.b>>
Seeded(ev) == ev.c # "" \/ KHas(ev.kw, "rng")
Seen(memo, key) == {i \in 1..Len(memo) : memo[i].key = key}

(* -------------------------------- shooting ------------------------------- *)
\* a leaf and what was made of it, shot from the same seed, fall in corresponding places
Same(o, p) == o.t = p.t /\ o.t = "leaf" /\ o.cls = p.cls /\ o.p = p.p /\ o.flux = p.flux
RECURSIVE OnlyDelta(_)
OnlyDelta(o) == (o.t = "leaf" /\ o.cls = "DeltaFunction") \/ (o.t # "leaf" /\ \A i \in 1..Len(o.kids) : OnlyDelta(o.kids[i]))
Signed(v, like) == IF Lt(like, "0") THEN NNeg(v) ELSE v
ShootEv(o, ev, memo) ==
  LET n == I(ev.n[1]) IN
  IF n = 0 THEN Obs(<<"0">>, STol)
  ELSE IF ~Shootable(o) THEN ObsE("any")
  ELSE IF Mixed(o) \/ Void(o) THEN ObsE("?")
  ELSE
    LET old == {i \in 1..Len(memo) : memo[i].key[1] = "shoot" /\ memo[i].key[3] = ev.n /\ memo[i].key[4] = ev.c /\ memo[i].key[5] = ev.s /\ o.t = "tr" /\ Same(memo[i].key[2], o.kids[1])}
        x == Part(ev.obs, 1, n) y == Part(ev.obs, 1 + n, n) f == Part(ev.obs, 1 + 2 * n, n)
        each == Div(Size(o), N(n)) pure == NEq(PN(o)[2], "0")
        fx == [i \in 1..n |-> IF f[i] = "missing" \/ pure THEN each ELSE Signed(Abs(each), f[i])]
        src == IF old = {} THEN <<>> ELSE memo[CHOOSE i \in old : TRUE].obs
        pos == [i \in 1..n |-> VAdd(o.d, MatVec(o.m, <<src[1 + i], src[1 + n + i]>>))]
        twice == {i \in 1..Len(memo) : memo[i].key[1] = "shoot" /\ memo[i].key[2] = o /\ memo[i].key[3] = ev.n /\ memo[i].key[4] = ev.c /\ ev.s = "twice" /\ memo[i].key[5] = ""}
        \* the generator moves on: other photons the second time
        fresh == twice = {} \/ OnlyDelta(o) \/ memo[CHOOSE i \in twice : TRUE].obs # ev.obs IN
    Obs(<<N(n)>> \o (IF src # <<>> THEN [i \in 1..n |-> pos[i][1]] \o [i \in 1..n |-> pos[i][2]] ELSE IF fresh THEN x \o y ELSE [i \in 1..n |-> "other"] \o y) \o fx,
        <<"1e-8", "1e-8">>)
\* the sampled transform: within 5.5 standard errors and the accuracy of the sampling tables
Sigma(o, n) == Add(Mul("5.5", Div(Abs(Size(o)), Sqrt(n))), Mul(Add("2e-4", Mul("2", o.gs.shoot_accuracy)), Abs(Size(o))))
Waves(o, ks, n, obs, extra, fac, amp) ==
  LET s == Mul(Abs(amp), Sigma(o, n)) IN
  Cat([i \in 1..(Len(ks) \div 2) |->
        LET u == CMul(KVal(o, <<ks[2 * i - 1], ks[2 * i]>>), extra[i]) v == <<Mul(fac, u[1]), Mul(fac, u[2])>> r == Part(obs, 2 * i - 2, 2) IN
        IF r[1] # "missing" /\ Close(v[1], r[1], "0", s) /\ Close(v[2], r[2], "0", s) THEN r ELSE v])
One(ks) == [i \in 1..(Len(ks) \div 2) |-> <<"1", "0">>]
EcfEv(o, ev) ==
  LET n == ev.n[1] ks == SubSeq(ev.n, 2, Len(ev.n)) each == Abs(Div(Size(o), n)) pure == NEq(PN(o)[2], "0")
      tot == IF pure THEN Flux(o) ELSE IF Len(ev.obs) > 0 /\ Close(Flux(o), ev.obs[1], "0", Sigma(o, n)) THEN ev.obs[1] ELSE Flux(o) IN
  IF ~Shootable(o) THEN ObsE("any")
  ELSE IF Void(o) THEN ObsE("?")
  ELSE Obs(<<tot, each, each>> \o Waves(o, ks, n, IF Len(ev.obs) > 3 THEN SubSeq(ev.obs, 4, Len(ev.obs)) ELSE <<>>, One(ks), "1", "1"), <<"1e-8", "1e-9">>)

(* what a list of photons must look like: how many, how large; from what was seen: <<number, total of sizes>> *)
Budget(o, kw, num, tot) ==
  LET r == IF ~Poisson(kw) \/ Flux(o) = "0" THEN "1" ELSE IF num = "missing" \/ NEq(num, "0") THEN "1" ELSE Abs(Div(Mul(tot, Gain(kw)), Mul(Size(o), Coarse(o, kw))))
      v == Drawn(o, r) n == Count(o, kw, r)
      fine == ~Poisson(kw) \/ Likely(o, v) \/ (Given(kw) /\ NEq(n, "0"))
      \* nothing to shoot from the deviate's own zero
      none == Poisson(kw) /\ num = "0" /\ Likely(o, "0") /\ Lt(Div(Abs(Sub(Abs(Flux(o)), Mean(o))), Coarse(o, kw)), "0.5") IN
  [n |-> IF none THEN "0" ELSE IF fine THEN n ELSE "unlikely", r |-> r, each |-> IF NEq(n, "0") \/ none THEN "0" ELSE Each(o, kw, r, n),
   \* the number is a whole one by a hair
   hair |-> LET z == Add(Wanted(Flux(o), PerPhoton(o), Coarse(o, kw), kw, r), "0.5") IN Close(z, Rint(z), "0", "1e-6")]
MakeEv(o, ev) ==
  LET kw == ev.kw fix == KInt(kw, "fixed") IN
  \* no photons wanted, nothing refused
  IF ~Shootable(o) THEN (IF Given(kw) /\ Count(o, kw, "1") = "0" THEN ObsE("?") ELSE IF ~Given(kw) /\ At(ev.obs, 2) = "0" THEN ObsE("?") ELSE ObsE("GalSimNotImplementedError"))
  ELSE IF Mixed(o) \/ (Void(o) /\ Flux(o) # "0") THEN ObsE("?")
  ELSE IF Flux(o) = "0" THEN
     LET n == IF Given(kw) THEN Count(o, kw, "1") ELSE "0" IN Obs(<<IF fix > 0 THEN N(fix) ELSE n, n, "0", "0", "0", "0">>, STol)
  ELSE LET b == Budget(o, kw, At(ev.obs, 2), At(ev.obs, 5)) m == Abs(b.each) tot == Mul(m, b.n) pure == NEq(PN(o)[2], "0") IN
    \* more than the fixed array holds
    IF fix > 0 /\ Len(ev.err) > 0 /\ Lt(N(fix), Add(Count(o, kw, "1"), Add("14", Mul("7", Sqrt(Mean(o)))))) THEN ObsE("any")
    ELSE IF b.n = "unlikely" THEN Obs(<<"unlikely number of photons">>, Exact)
    ELSE IF b.hair \/ (fix > 0 /\ Lt(N(fix), b.n)) THEN ObsE("?")
    \* what the flux should be, whatever the size of the photons
    ELSE IF ev.s = "ideal" THEN Obs(<<b.n, b.n, Div(Abs(Flux(o)), b.n), Div(Abs(Flux(o)), b.n), Abs(Flux(o)), Flux(o)>>, STol)
    ELSE Obs(<<IF fix > 0 THEN N(fix) ELSE b.n, b.n, m, m, tot, IF pure THEN Signed(tot, Size(o)) ELSE At(ev.obs, 6)>>, STol)

(* -------------------------------- drawing -------------------------------- *)
NB(b) == <<N(b[1]), N(b[2]), N(b[3]), N(b[4])>>
Zero(b) == [i \in 1..(Width(b) * Height(b)) |-> "0"]
\* single precision adds photons one by one: rounding grows with their number
PixTolP(dt, s, m) == IF dt \in {"f4"} THEN Mul("1e-7", Mul(Add("1", s), Add("40", IF m = "0" THEN "0" ELSE Div(s, m)))) ELSE IF dt \in Ints THEN "1e-6" ELSE Mul("1e-10", Add("1", s))
None == [t |-> "none"]
ImgOf(h, ev) == IF ev.b = 0 THEN None ELSE h[ev.b]
WcsOf(h, ev) == IF ev.d = 0 THEN NoW ELSE h[ev.d]
MaxAbs(s) == MaxS(<<"0">> \o [i \in 1..Len(s) |-> Abs(s[i])])
Adopt(exp, obs, tol) == IF Len(obs) = Len(exp) /\ \A i \in 1..Len(exp) : Close(exp[i], obs[i], "0", tol) THEN obs ELSE exp
\* operators: profiles the photons are further spread by, given on the sky
Ops(h, ev, j) == [i \in 1..Len(ev.hs) |-> ProfUnder(Inv2(j), h[ev.hs[i]], "1", Z2)]
PhotCall(h, ev) ==
  LET o == h[ev.a] im == ImgOf(h, ev) wa == WcsOf(h, ev) kw == ev.kw bad == PRefusals(o, kw, wa, im)
      fresh == ev.b = 0 \/ ev.mode = "jit" IN
  IF bad # {} THEN (IF fresh THEN NewE(OneErr(bad)) ELSE ObsE(OneErr(bad)))
  ELSE
  LET pl == TLCEval(Plan(o, kw, "phot", wa, im)) p == pl.p b == pl.b dt == IF im.t = "img" THEN im.dt ELSE KGet(kw, "dtype", "f4")
      add == KTrue(kw, "add") base == IF add THEN im.px ELSE Zero(b) np == Width(b) * Height(b)
      save == KTrue(kw, "save_photons") full == ev.s = "full"
      ops == Ops(h, ev, pl.j)
      \* <<same object, flux reported, number, total of sizes, total, largest, smallest>> then waves, bounds, type, total of pixels, pixels, photons
      ob == ev.obs ks == ev.n nw == Len(ks) at == 7 + nw
      opflux == ProdS([j \in 1..Len(ops) |-> Flux(ops[j])])
      bud == Budget(p, kw, At(ob, 3), IF At(ob, 4) = "missing" THEN "missing" ELSE Div(At(ob, 4), Abs(opflux)))
      pure == NEq(PN(p)[2], "0")
      n == IF save THEN bud.n ELSE IF Poisson(kw) THEN "?" ELSE Count(p, kw, "1")
      m == IF n = "?" THEN "0" ELSE IF save THEN Abs(bud.each) ELSE Abs(Each(p, kw, "1", n))
      tot == IF n = "?" THEN "0" ELSE Mul(m, n)
      Void2 == Mixed(p) \/ Void(p)
      lax == [R(IF fresh THEN "new" ELSE "lax", LaxV, <<>>, Exact, "?") EXCEPT !.k = IF fresh THEN "new" ELSE "lax"] IN
  IF pl.unclear \/ Void2 \/ np > 400 \/ (save /\ bud.hair) THEN lax
  ELSE IF save /\ bud.n = "unlikely" THEN NewV(LaxV, <<"unlikely number of photons">>)
  ELSE IF n # "?" /\ NEq(n, "0") THEN lax
  ELSE
  LET me == Mul(m, Abs(opflux))
      px == Part(ob, at + 6, np)
      scale == Add(MaxAbs(base), Mul(me, "40"))
      ptol == PixTolP(dt, Add(scale, IF \A i \in 1..np : px[i] # "missing" THEN MaxAbs(px) ELSE "0"), me)
      gained == IF \E i \in 1..np : px[i] = "missing" THEN "missing" ELSE Sub(NSum(px), NSum(base))
      k == IF save THEN I(n) ELSE 0
      X == Part(ob, at + 6 + np, k) Y == Part(ob, at + 6 + np + k, k) F == Part(ob, at + 6 + np + 2 * k, k)
      dep == IF full /\ save /\ X # <<>> /\ F[k] # "missing" THEN Deposit(b, X, Y, F) ELSE [px |-> <<>>, added |-> "0"]
      edgy == full /\ save /\ F[k] # "missing" /\ (Edgy(X) \/ Edgy(Y))
      sum == [i \in 1..Len(dep.px) |-> Add(base[i], IF dt \in Ints THEN Rint(dep.px[i]) ELSE dep.px[i])]
      hairy == dt \in Ints /\ \E i \in 1..Len(dep.px) : LET g == Sub(dep.px[i], Floor(dep.px[i])) IN Close(g, "0.5", "0", "1e-6")
      \* every pixel gained whole photons, no more than there are
      units == [i \in 1..np |-> IF px[i] = "missing" THEN "missing" ELSE Div(Sub(px[i], base[i]), Signed(me, Mul(Size(p), opflux)))]
      whole == n # "?" /\ pure /\ dt \notin Ints
      utol == Div(ptol, me)
      okunits == ~whole \/ (/\ \A i \in 1..np : units[i] # "missing" /\ Close(units[i], Rint(units[i]), "0", Add("1e-6", utol)) /\ Le("-0.5", units[i])
                            /\ Le(NSum(units), Add(n, Add("1e-6", Mul(utol, N(np))))))
      expx == IF full /\ save /\ ~edgy /\ ~hairy THEN Adopt(sum, px, ptol) ELSE IF okunits THEN px ELSE [i \in 1..np |-> "whole photons"]
      flux == Div(IF full /\ save /\ ~edgy THEN dep.added ELSE gained, pl.fs)
      ftol == Div(Add(Mul(ptol, N(np)), IF dt \in Ints /\ ~(full /\ save) THEN Mul("0.5", N(np)) ELSE "0"), pl.fs)
      fexp == IF gained = "missing" THEN "flux" ELSE IF At(ob, 2) # "missing" /\ Close(flux, ob[2], "1e-9", ftol) THEN ob[2] ELSE flux
      \* the photons follow the profile, seen from the centre pixel
      spread == [i \in 1..(nw \div 2) |-> CProd([j \in 1..Len(ops) |-> KVal(ops[j], <<ks[2 * i - 1], ks[2 * i]>>)])]
      fac == Mul(bud.r, Div(Coarse(p, kw), Gain(kw)))
      ww == IF nw = 0 THEN <<>> ELSE Waves(p, ks, n, Part(ob, 7, nw), spread, fac, Mul(fac, opflux))
      exp == <<TF(im.t = "img" /\ ev.mode # "jit"), fexp>>
             \o (IF save THEN <<n, Mul(me, n), IF pure THEN Signed(Mul(me, n), Mul(Size(p), opflux)) ELSE At(ob, 5), me, me>>
                 ELSE <<"0", "0", "0", "0", "0">>)
             \o ww
             \o NB(b) \o <<dt, IF gained = "missing" THEN "total" ELSE NSum(px)>> \o expx \o (IF full /\ save THEN X \o Y \o F ELSE <<>>)
      new == [t |-> "img", b |-> b, dt |-> dt, w |-> pl.w, const |-> FALSE, px |-> px, gs |-> <<>>] IN
  R(IF fresh THEN "new" ELSE "set", new, exp, STol, "")

MkImg(h, ev) ==
  LET n == ev.n b == [i \in 1..4 |-> I(n[i])] nx == Width(b) IN
  IF Len(n) = 0 THEN [t |-> "img", b |-> <<>>, dt |-> ev.s, w |-> WcsOf(h, ev), const |-> FALSE, px |-> <<>>, gs |-> <<>>]
  ELSE [t |-> "img", b |-> b, dt |-> ev.s, w |-> WcsOf(h, ev), const |-> ev.c = "const", gs |-> <<>>,
        px |-> [i \in 1..(nx * Height(b)) |-> Add(n[5], Add(Mul(n[6], N(b[1] + ((i - 1) % nx))), Mul(n[7], N(b[3] + ((i - 1) \div nx)))))]]
MkWcs(ev) ==
  IF ev.c = "FitsWCS" THEN ReadFits(ev.hdr)
  ELSE LET k == Len(ev.n) IN Flat6(ev.c, SubSeq(ev.n, 1, k - 4), SubSeq(ev.n, k - 3, k - 2), SubSeq(ev.n, k - 1, k))
ImLook(im) == IF im.b = <<>> THEN <<"F", im.dt>> ELSE NB(im.b) \o <<im.dt>> \o im.px
PTol(im) == IF im.t = "img" /\ im.dt = "f4" THEN <<"4e-6", "4e-6">> ELSE STol

Do(s, ev) ==
  LET h == s.h IN
  CASE ev.op = "wcs" -> NewV(MkWcs(ev), <<>>)
    [] ev.op = "img" -> LET im == MkImg(h, ev) IN R("new", im, ImLook(im), PTol(im), "")
    [] ev.op = "see" -> Obs(ImLook(h[ev.b]), PTol(h[ev.b]))
    [] ev.op = "pn" -> Obs(PN(h[ev.a]), STol)
    [] ev.op = "shoot" -> ShootEv(h[ev.a], ev, s.memo)
    [] ev.op = "ecf" -> EcfEv(h[ev.a], ev)
    [] ev.op = "make" -> MakeEv(h[ev.a], ev)
    [] ev.op = "phot" -> PhotCall(h, ev)
    [] ev.op = "leaf" /\ ev.s = "Moffat" /\ (\E g \in 1..Len(ev.gs) : ev.gs[g][1] = "maxk_threshold" /\ Lt("0.1", ev.gs[g][2])) -> NewE("ValueError")
    [] OTHER -> LET r == Call(h, ev) IN IF r.err # "" THEN NewE("?") ELSE NewV(r.o, <<>>)
Refs(ev) == {ev.a, ev.b, ev.d} \cup {ev.hs[i] : i \in 1..Len(ev.hs)}
Quiet == {"see", "pn", "shoot", "ecf", "make"}
News(ev) == ev.op \notin Quiet /\ ~(ev.op = "phot" /\ ev.b > 0 /\ ev.mode # "jit")
RECURSIVE Neg(_)
Neg(o) == IF o.t \in {"img", "LAX", "wcs", "fits"} THEN FALSE ELSE Mixed(o)
Sig(h, ev) == ev.op \o "/" \o ev.s \o "/" \o ev.mode \o (IF ev.a > 0 /\ Neg(h[ev.a]) THEN "/mixed" ELSE "")
Step(s, ev) ==
  LET h == s.h IN
  IF \E x \in Refs(ev) : x > 0 /\ (x > Len(h) \/ h[x].t = "LAX") THEN
     [st |-> [s EXCEPT !.h = IF News(ev) THEN Append(h, LaxV) ELSE IF ev.op = "phot" /\ ev.b > 0 /\ ev.b <= Len(h) THEN [h EXCEPT ![ev.b] = LaxV] ELSE h],
      exp |-> <<>>, err |-> "?", tol |-> Exact, clause |-> ev.op]
  ELSE
   LET r == TLCEval(Do(s, ev)) c == Sig(h, ev) key == Key(h, ev) old == IF Seeded(ev) THEN Seen(s.memo, key) ELSE {}
       nh == IF News(ev) THEN Append(h, r.h) ELSE IF r.k \in {"set", "lax"} THEN [h EXCEPT ![ev.b] = r.h] ELSE h
       nm == IF Seeded(ev) /\ old = {} /\ Len(ev.err) = 0 /\ ev.op \notin {"img", "see"} THEN Append(s.memo, [key |-> key, obs |-> ev.obs]) ELSE s.memo
       ns == [h |-> nh, memo |-> nm]
       \* the same call from the same seed gives the same (the object returned may be a new one)
       was == IF old = {} THEN <<>> ELSE s.memo[CHOOSE i \in old : TRUE].obs
       from == IF ev.op = "phot" THEN 2 ELSE 1
       \* a fixed array of another size shoots other photons
       again == IF old = {} \/ Len(ev.err) > 0 THEN TRUE
                ELSE Len(was) = Len(ev.obs) /\ SeqClose(SubSeq(was, from, Len(was)), SubSeq(ev.obs, from, Len(ev.obs)), "1e-6", "1e-7") IN
   IF ~again THEN Ok(ns, was, STol, c \o "/again")
   ELSE IF r.err # "" THEN Err(ns, r.err, c) ELSE Ok(ns, r.exp, r.tol, c)

S0 == [h |-> <<>>, memo |-> <<>>]
TInit == l = 1 /\ st = S0 /\ dead = FALSE
TNext ==
  /\ l <= Len(Tr) /\ l' = l + 1
  /\ LET ev == Tr[l] IN
     IF ev.op = "reset" THEN st' = S0 /\ dead' = FALSE
     ELSE IF dead THEN UNCHANGED <<st, dead>>
     ELSE LET r == Step(st, ev) IN LET ok == Matches(r, ev) IN
          st' = r.st /\ dead' = ~ok /\ (IF ok THEN TRUE ELSE Report(l, r, ev))
  /\ (l = Len(Tr) => PrintT("DONE " \o ToString(l)))
=============================================================================
