----------------------------- MODULE NoiseTrace -----------------------------
(* Recorded histories of generators, noises and images; memo: what each      *)
(* stream key has delivered, to a direct draw or to a pixel.                  *)
EXTENDS Noise, TraceLib
VARIABLES l, st, dead

S0 == [off |-> FALSE, n |-> NInit, memo |-> [k \in {} |-> "0"]]
TF(b) == IF b THEN "T" ELSE "F"
Canon(p) == [q \in 1..Len(p) |-> Add(p[q], "0")]
Flt(im) == im.dt \in {"f4", "f8"}
Eps(im) == IF im.dt = "f4" THEN "4e-7" ELSE "1e-10"

Known(s, v) == v.key \in DOMAIN s.memo
Memo(s, v) == Add(v.b, Mul(v.a, s.memo[v.key]))
Base(v, o) == Div(Sub(o, v.b), v.a)
DrawVals(s, vals, obs) ==
  [q \in 1..Len(vals) |->
     IF Known(s, vals[q]) THEN Memo(s, vals[q])
     ELSE IF NEq(vals[q].a, "0") THEN vals[q].b
     ELSE IF q <= Len(obs) /\ Finite(obs[q]) /\ InRange(vals[q].k, Base(vals[q], obs[q])) THEN obs[q]
     ELSE "value-in-range-of-" \o vals[q].k]
Put(memo, prs) ==    \* <<key, value>> pairs for keys not there yet
  LET new == {q \in 1..Len(prs) : prs[q][1] \notin DOMAIN memo} IN
  IF new = {} THEN memo
  ELSE [k \in {prs[q][1] : q \in new} \cup DOMAIN memo |->
          IF k \in DOMAIN memo THEN memo[k] ELSE prs[CHOOSE q \in new : prs[q][1] = k][2]]
Learn(s, vals, obs) ==
  IF Len(vals) # Len(obs) THEN s.memo
  ELSE LET q == SelectSeq([i \in 1..Len(vals) |-> i], LAMBDA i : ~Known(s, vals[i]) /\ ~NEq(vals[i].a, "0") /\ Finite(obs[i])) IN
       Put(s.memo, [j \in 1..Len(q) |-> <<vals[q[j]].key, Base(vals[q[j]], obs[q[j]])>>])

(* ------------------------------ one pixel -------------------------------- *)
\* the part of the pixel that needs no chance
Fixed0(n, o) == IF n.k \in {"Poisson", "CCD"} THEN (IF Shot(n) THEN NNeg(Sky(n)) ELSE o) ELSE o
\* the values that decide the pixel, with what they are multiplied by; a mean of zero photons is no photons
Parts(n, c, o, q, m) ==
  IF n.k \in {"Poisson", "CCD"} /\ Shot(n)
  THEN (IF Pos(Expect(n, o)) THEN <<[ShotVal(n, c, o, q) EXCEPT !.a = Div("1", Gain(n))]>> ELSE <<>>)
       \o (IF Read(n) THEN <<ReadVal(n, c, q, m)>> ELSE <<>>)
  ELSE PixVals(n, c, o, q, m)
RECURSIVE SumKnown(_, _)
SumKnown(s, vs) == IF vs = <<>> THEN "0" ELSE Add(IF Known(s, vs[1]) THEN Memo(s, vs[1]) ELSE vs[1].b, SumKnown(s, SubSeq(vs, 2, Len(vs))))
Wide(n) == IF n.k = "Dev" THEN "80" ELSE "15"
\* [ok, prs]: is x acceptable, and what it teaches
Pixel(s, n, c, im, o, x, q, m) ==
  LET vs == SelectSeq(Parts(n, c, o, q, m), LAMBDA v : ~NEq(v.a, "0"))
      un == SelectSeq(vs, LAMBDA v : ~Known(s, v))
      target == Add(Fixed0(n, o), SumKnown(s, vs))
      scale == Add("1", Add(Abs(o), Add(Abs(x), Sky(n))))
      near == Le(Abs(Sub(x, target)), Mul(Eps(im), scale))
      plaus == Le(Abs(Sub(Sub(x, o), AddMean(n, o, q))), Add("32", Mul(Wide(n), Sqrt(AddVar(n, o, q)))))
      \* counting noise on whole numbers loses nothing to rounding
      whole == n.k = "Poisson" /\ NEq(n.p[1], Rint(n.p[1])) /\ Lt(Expect(n, o), "50000") IN
  IF ~Finite(x) THEN [ok |-> FALSE, prs |-> <<>>, want |-> target]
  ELSE IF un = <<>> THEN
    [ok |-> IF Flt(im) THEN near ELSE IF whole THEN NEq(x, target) ELSE Le(Abs(Sub(x, target)), "1.000001"), prs |-> <<>>, want |-> target]
  ELSE IF Len(un) = 1 /\ Flt(im) THEN
    LET raw == Div(Sub(x, target), un[1].a) r == IF un[1].k = "Po" /\ Lt(raw, "50000") THEN Rint(raw) ELSE raw
        fine == Close(r, raw, "0", Mul(Div(Eps(im), un[1].a), Mul("4", scale))) /\ InRange(un[1].k, IF un[1].k = "U" THEN (IF im.dt = "f4" THEN "0.5" ELSE r) ELSE IF un[1].k \in {"Po", "Bi"} THEN Rint(r) ELSE IF Close(r, "0", "0", "1e-3") THEN "0" ELSE r) IN
    [ok |-> plaus /\ fine, prs |-> IF im.dt = "f8" /\ (un[1].k # "Po" \/ Lt(raw, "50000")) THEN <<<<un[1].key, r>>>> ELSE <<>>, want |-> "plausible"]
  ELSE [ok |-> plaus, prs |-> <<>>, want |-> "plausible"]

RECURSIVE CatP(_, _)
CatP(f, i) == IF i > Len(f) THEN <<>> ELSE f[i].prs \o CatP(f, i + 1)
\* noise n on stream cell c, over pixels old, seen as new: [exp, memo]
Lay(s, n, c, im, old, new) ==
  LET m == Len(old) IN
  IF Len(new) # m THEN [exp |-> <<"as-many-pixels">>, memo |-> s.memo]
  ELSE LET f == TLCEval([q \in 1..m |-> Pixel(s, n, c, im, old[q], new[q], q, m)]) IN
       [exp |-> [q \in 1..m |-> IF f[q].ok THEN new[q] ELSE f[q].want], memo |-> Put(s.memo, CatP(f, 1))]

(* ------------------------------ one event -------------------------------- *)
SetIm(s, i, px) == [s EXCEPT !.n.ims[i].px = px]
ApplyEv(s, ev, cl) ==
  LET n == s.n.ns[ev.a] im == s.n.ims[ev.im] c == NCell(s.n, ev.a) m == NPix(im) IN
  IF im.const THEN Err(s, "GalSimImmutableError", cl)
  ELSE IF n.k = "Var" /\ (Len(n.p) # m \/ n.nx # im.nx) THEN Err(s, "GalSimIncompatibleValuesError", cl)
  ELSE LET r == Lay(s, n, c, im, im.px, ev.obs) IN
       Ok([SetIm(s, ev.im, IF Len(ev.obs) = m THEN ev.obs ELSE im.px) EXCEPT !.memo = r.memo,
             !.n.rng = IF ev.how = "jit" THEN Detach(@, n.h, Cell(c.seed, c.pos + Reads(n, m))) ELSE Move(@, n.h, Reads(n, m))],
          r.exp, Exact, cl)
SumSq(px) == NSum([q \in 1..Len(px) |-> Mul(px[q], px[q])])
SnrEv(s, ev, cl) ==
  LET n == s.n.ns[ev.a] im == s.n.ims[ev.im] c == NCell(s.n, ev.a) m == NPix(im) ss == SumSq(im.px) snr == ev.p[1]
      keep == ev.how = "T" v == IF keep THEN Div(Div(ss, snr), snr) ELSE Variance(n)
      n2 == IF keep THEN WithVar(n, v) ELSE n
      old == IF keep THEN im.px ELSE LET f == Div(snr, Sqrt(Div(ss, Variance(n)))) IN [q \in 1..m |-> Mul(im.px[q], f)] IN
  IF ~HasVar(n) THEN Err(s, "GalSimError", cl)
  \* a signal to noise with no signal, or with no noise, has no meaning
  ELSE IF im.const \/ NEq(ss, "0") \/ (~keep /\ ~Pos(Variance(n))) THEN [st |-> [s EXCEPT !.off = TRUE], exp |-> <<>>, err |-> "?", tol |-> Exact, clause |-> cl]
  ELSE LET seen == IF Len(ev.obs) = m + 1 THEN SubSeq(ev.obs, 2, m + 1) ELSE <<>>
           r == Lay(s, n2, c, im, old, seen) IN
       Ok([SetIm(s, ev.im, IF Len(seen) = m THEN seen ELSE im.px) EXCEPT !.memo = r.memo, !.n.rng = Move(@, n.h, Reads(n2, m))],
          <<IF Len(ev.obs) > 0 /\ Close(v, ev.obs[1], Mul("10", Eps(im)), "0") THEN ev.obs[1] ELSE v>> \o r.exp, Exact, cl)

NewNoise(ev) == [k |-> ev.k, h |-> 0, p |-> Canon(ev.p), dk |-> "", dp |-> <<>>, nx |-> ev.n]
MakeEv(s, ev, cl) ==
  LET n == NewNoise(ev) g == s.n.rng.hs IN
  IF ev.k = "Gauss" /\ Lt(ev.p[1], "0") THEN [st |-> s, exp |-> <<>>, err |-> "?", tol |-> Exact, clause |-> cl]
  ELSE IF ev.h = 0 THEN Ok([s EXCEPT !.n = AddNoiseNew(@, [n EXCEPT !.dk = "B"], Cell(ev.s, 0))], <<>>, Exact, cl)
  ELSE Ok([s EXCEPT !.n = AddNoise(@, [n EXCEPT !.dk = g[ev.h].k, !.dp = g[ev.h].p], g[ev.h].c)], <<>>, Exact, cl)
\* a noise derived from noise a, on the same stream
Derive(s, ev, cl) ==
  LET n == s.n.ns[ev.a] f == IF ev.op = "div" THEN Div("1", ev.p[1]) ELSE ev.p[1] IN
  IF ~HasVar(n) THEN Err(s, "GalSimError", cl)
  ELSE Ok([s EXCEPT !.n = AddNoise(@, IF ev.op = "wvar" THEN WithVar(n, ev.p[1]) ELSE Scaled(n, f), NC(s.n, ev.a))], <<>>, Exact, cl)
CopyEv(s, ev, cl) ==
  LET n == s.n.ns[ev.a] g == s.n.rng.hs IN
  CASE ev.how = "copy" -> Ok([s EXCEPT !.n = AddNoise(@, n, NC(s.n, ev.a))], <<>>, Exact, cl)
    [] ev.how = "copyrng" -> Ok([s EXCEPT !.n = AddNoise(@, IF n.k = "Dev" THEN n ELSE [n EXCEPT !.dk = g[ev.h].k, !.dp = g[ev.h].p], g[ev.h].c)], <<>>, Exact, cl)
    [] OTHER -> Ok([s EXCEPT !.n = AddNoiseNew(@, n, NCell(s.n, ev.a))], <<>>, Exact, cl)
Differ(a, b) == Len(a) # Len(b) \/ \E q \in 1..Len(a) : ~Close(a[q], b[q], "1e-9", "0")
EqEv(s, ev, cl) ==
  LET x == s.n.ns[ev.a] y == s.n.ns[ev.b] src == x.dk = y.dk /\ x.dp = y.dp IN
  IF ev.a = ev.b THEN Ok(s, <<"T", "F">>, Exact, cl)
  ELSE IF x.k # y.k \/ NCell(s.n, ev.a) # NCell(s.n, ev.b) \/ Differ(x.p, y.p) \/ (x.k = "Dev" /\ ~src) THEN Ok(s, <<"F", "T">>, Exact, cl)
  ELSE IF NSame(s.n, ev.a, ev.b) /\ (x.k = "Var" => x.nx = y.nx) /\ (src \/ x.k # "CCD") THEN Ok(s, <<"T", "F">>, Exact, cl)
  ELSE [st |-> s, exp |-> <<>>, err |-> "?", tol |-> Exact, clause |-> cl]
\* a flat field of many pixels of value o: mean and variance of what is added
DistEv(s, ev, cl) ==
  LET n == s.n.ns[ev.a] o == ev.p[1] m == N(ev.n) var == AddVar(n, o, 1)
      ok == /\ Len(ev.obs) = 2
            /\ Near(ev.obs[1], AddMean(n, o, 1), Sqrt(Div(var, m)), "7")
            /\ Near(ev.obs[2], var, Mul(var, Sqrt(Div(Add("0.1", Sub(AddKurt(n, o), "1")), m))), "8") IN
  Ok([s EXCEPT !.n.rng = Move(@, n.h, Reads(n, ev.n))], IF ok THEN ev.obs ELSE <<"mean", AddMean(n, o, 1), "var", var>>, Exact, cl)

Look(im) == <<N(im.nx), N(Len(im.px) \div im.nx), im.dt, TF(im.const)>> \o im.px
NoiseOps == {"apply", "snr", "var", "attrs", "wvar", "wscale", "mul", "rmul", "div", "ncopy", "neq", "ndist"}
Step(s, ev) ==
  LET cl == ev.op \o "/" \o ev.how \o (IF ev.a > 0 /\ ev.a <= Len(s.n.ns) THEN "/" \o s.n.ns[ev.a].k ELSE "") IN
  IF s.off \/ ev.h > Len(s.n.rng.hs) \/ ev.g > Len(s.n.rng.hs) \/ ev.a > Len(s.n.ns) \/ ev.b > Len(s.n.ns) \/ ev.im > Len(s.n.ims)
     \/ (ev.op \in NoiseOps /\ ev.a = 0)
  THEN [st |-> s, exp |-> <<>>, err |-> "?", tol |-> Exact, clause |-> cl]
  ELSE CASE ev.op = "im" -> Ok([s EXCEPT !.n.ims = Append(@, [dt |-> ev.k, nx |-> ev.n, px |-> ev.obs, const |-> ev.how = "const"])], ev.p, <<"1e-6", "0">>, cl)
    [] ev.op = "nnew" -> MakeEv(s, ev, cl)
    [] ev.op = "nbad" -> Err(s, ev.s, cl)
    [] ev.op = "apply" -> ApplyEv(s, ev, cl)
    [] ev.op = "snr" -> SnrEv(s, ev, cl)
    [] ev.op = "var" -> IF HasVar(s.n.ns[ev.a]) THEN Ok(s, <<Variance(s.n.ns[ev.a])>>, Loose, cl) ELSE Err(s, "GalSimError", cl)
    [] ev.op = "attrs" -> Ok(s, <<s.n.ns[ev.a].k>> \o s.n.ns[ev.a].p, Loose, cl)
    [] ev.op \in {"wvar", "wscale", "mul", "rmul", "div"} -> Derive(s, ev, cl)
    [] ev.op = "ncopy" -> CopyEv(s, ev, cl)
    [] ev.op = "neq" -> EqEv(s, ev, cl)
    [] ev.op = "ndist" -> DistEv(s, ev, cl)
    [] ev.op = "pix" -> Ok(s, Look(s.n.ims[ev.im]), Exact, cl)
    [] OTHER ->
         LET r == Do(s.n.rng, [ev EXCEPT !.p = Canon(@)]) IN
         IF r.err # "" THEN Err([s EXCEPT !.n.rng = r.st], r.err, cl)
         ELSE [st |-> [s EXCEPT !.n.rng = r.st, !.memo = IF Len(r.vals) > 0 /\ Len(ev.err) = 0 THEN Learn(s, r.vals, ev.obs) ELSE @],
               exp |-> DrawVals(s, r.vals, ev.obs), err |-> "", tol |-> Loose, clause |-> cl]

TInit == l = 1 /\ st = S0 /\ dead = FALSE
TNext ==
  /\ l <= Len(Tr) /\ l' = l + 1
  /\ LET ev == Tr[l] IN
     IF ev.op = "reset" THEN st' = S0 /\ dead' = FALSE
     ELSE IF dead THEN UNCHANGED <<st, dead>>
     ELSE LET r == Step(st, ev) IN LET ok == Matches(r, ev) IN
          st' = r.st /\ dead' = ~ok /\ (IF ok THEN TRUE ELSE Report(l, r, ev))
  /\ (l = Len(Tr) => PrintT("DONE " \o ToString(l)))
=============================================================================
