----------------------------- MODULE PhotonTrace -----------------------------
(* Recorded histories of photon arrays and images; memo: positions delivered per seed. *)
EXTENDS Photon, TraceLib
VARIABLES l, st, dead

LaxV == [t |-> "LAX"]
TF(b) == IF b THEN "T" ELSE "F"
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Cat(SubSeq(s, 2, Len(s)))
PLook(p) == <<N(Size(p)), N(Size(p)), N(Kept(p)), TF(p.corr), TF(HasAngles(p)), TF(HasWave(p)), TF(HasPupil(p)), TF(HasTime(p)), Total(p)>>
            \o p.x \o p.y \o FluxOf(p) \o [i \in 1..Size(p) |-> TF(~p.keep[i])] \o Cat([c \in 1..6 |-> p.ch[Chan[c]]])
ILook(im) == (IF im.b = <<>> THEN <<"F">> ELSE <<"T", N(im.b[1]), N(im.b[2]), N(im.b[3]), N(im.b[4])>>) \o <<im.dt, im.dt, im.sc>> \o im.px
Look(o) == IF o.t = "pa" THEN PLook(o) ELSE ILook(o)
PTol == <<"1e-11", "1e-11">>
ITol(im) == IF im.dt \in {"f4", "c8"} THEN <<"2e-6", "2e-6">> ELSE PTol

R(k, v, exp, tol, err) == [k |-> k, h |-> v, exp |-> exp, tol |-> tol, err |-> err]
NewV(v, pre) == R("new", v, pre \o Look(v), IF v.t = "im" THEN ITol(v) ELSE PTol, "")
NewE(e) == R("new", LaxV, <<>>, Exact, e)
SetV(v, pre) == R("set", v, pre \o Look(v), IF v.t = "im" THEN ITol(v) ELSE PTol, "")
Obs(exp, tol) == R("obs", LaxV, exp, tol, "")
ObsE(e) == R("obs", LaxV, <<>>, Exact, e)
Lax(k) == R(k, LaxV, <<>>, Exact, "?")

\* a call that changes an array does so in place, or (traced) gives back a changed copy
Chg(ev, v) == IF ev.mode = "jit" THEN NewV(v, <<"F">>) ELSE SetV(v, <<"T">>)
ChgE(ev, e) == IF ev.mode = "jit" THEN NewE(e) ELSE ObsE(e)
ChgLax(ev) == IF ev.mode = "jit" THEN Lax("new") ELSE Lax("set")

MkPA(ev) ==
  LET n == I(ev.n[1]) fix == I(ev.n[2]) tot == IF fix > 0 THEN fix ELSE n IN
  IF fix > 0 /\ n > fix THEN NewE("any")
  ELSE IF \E i \in 1..Len(ev.arr) : ~FitsIn(ev.arr[i][2], tot) THEN NewE("any")
  ELSE NewV(PutAll(Blank(tot, n), ev.arr), <<>>)
\* from whole arrays: nothing is filled in
FromPA(ev) ==
  LET n == Len(ev.arr[1][2]) fix == I(ev.n[2]) b == Blank(n, n) g(nm, d) == IF \E i \in 1..Len(ev.arr) : ev.arr[i][1] = nm THEN ev.arr[CHOOSE i \in 1..Len(ev.arr) : ev.arr[i][1] = nm][2] ELSE d IN
  IF fix > 0 /\ n # fix THEN NewE("GalSimValueError")
  ELSE NewV([b EXCEPT !.x = g("x", @), !.y = g("y", @), !.f = g("flux", @), !.ch = [c \in Chans |-> g(c, b.ch[c])], !.corr = ev.s = "corr"], <<>>)
MkIm(ev) ==
  LET b == IF Len(ev.n) < 4 THEN <<>> ELSE [i \in 1..4 |-> I(ev.n[i])] IN
  NewV([t |-> "im", b |-> b, dt |-> ev.s, sc |-> ev.c, px |-> ev.arr[1][2]], <<>>)

CopyEv(p, q, ev) ==
  LET n == Size(p) m == Size(q) d1 == ev.i1 d2 == ev.i2 IN
  IF BadIdx(d1, n) \/ BadIdx(d2, m) THEN ChgE(ev, "ValueError")
  ELSE LET s1 == Idx(d1, n) s2 == Idx(d2, m) fl == ev.n[2] = "T" xy == ev.n[1] = "T" oth == ev.n[3] = "T" IN
    IF Len(s1) # Len(s2) /\ ~(Len(s2) = 1) THEN (IF xy \/ fl \/ oth THEN ChgLax(ev) ELSE Chg(ev, p))
    ELSE LET t2 == IF Len(s2) = 1 THEN [i \in 1..Len(s1) |-> s2[1]] ELSE s2 r == CopyFrom(p, q, s1, t2, xy, fl, oth) IN
         \* without the fluxes, a changed number of photons has no defined meaning; no photons, no flux each
         IF (~fl /\ Kept(r) # Kept(p)) \/ Kept(r) = 0 \/ Kept(q) = 0 THEN ChgLax(ev) ELSE Chg(ev, r)

RECURSIVE Mates(_, _, _)   \* all ways to give places i.. a mate of their own
Mates(fits, i, used) ==
  IF i > Len(fits) THEN {<<>>}
  ELSE UNION {{<<j>> \o m : m \in Mates(fits, i + 1, used \cup {j})} : j \in fits[i] \ used}
\* a rearrangement that explains what was seen
ConvEv(p, q, ev) ==
  LET n == Size(p) at(k) == IF Len(ev.obs) >= 10 + 3 * n THEN ev.obs[10 + k] ELSE "nan" IN
  IF Size(q) # n THEN ChgE(ev, IF ev.mode = "jit" THEN "any" ELSE "GalSimIncompatibleValuesError")
  ELSE IF Kept(p) # Kept(q) \/ (n > 0 /\ Kept(p) = 0) THEN ChgLax(ev)
  ELSE IF ~(p.corr /\ q.corr) THEN Chg(ev, Convolve(p, q, Ident(n)))
  ELSE LET k == Kept(p) a == TLCEval(Order(p)) b == TLCEval(Order(q))
           \* photons that count pair with photons that count, in any order
           fit(u, v) == LET i == a[u] j == b[v] IN
                        /\ (u <= k) = (v <= k)
                        /\ Close(Add(p.x[i], q.x[j]), at(i), "1e-12", "1e-12") /\ Close(Add(p.y[i], q.y[j]), at(n + i), "1e-12", "1e-12")
                        /\ (u <= k => Close(Mul(Mul(p.f[i], q.f[j]), N(k)), at(2 * n + i), "1e-12", "1e-12"))
                        /\ \A c \in 1..6 : HasCh(q, Chan[c]) /\ ~HasCh(p, Chan[c]) =>
                             LET s == at((3 + c) * n + i) v1 == q.ch[Chan[c]][j] IN s = v1 \/ (s # "nan" /\ v1 # "nan" /\ Close(v1, s, "1e-12", "1e-12"))
           fits == TLCEval([u \in 1..n |-> {v \in 1..n : fit(u, v)}])
           ms == Mates(fits, 1, {}) IN
       \* which flux a photon that does not count carries may be left open
       IF ms # {} /\ \E u \in (k + 1)..n : Cardinality(fits[u]) > 1 THEN ChgLax(ev)
       ELSE Chg(ev, IF ms # {} THEN Convolve(p, q, CHOOSE m \in ms : TRUE) ELSE [Convolve(p, q, Ident(n)) EXCEPT !.x = All("inf", n)])

Near5(x) == LET f == Sub(x, Floor(x)) IN Close(f, "0.5", "0", "1e-9") /\ f # "0.5"
Brittle(p, r, im) == \/ \E i \in 1..Size(p) : Near5(p.x[i]) \/ Near5(p.y[i])
                     \/ im.dt \in Ints /\ \E k \in 1..Len(r.raw) : Near5(r.raw[k])
AddEv(p, im, ev) ==
  IF im.b = <<>> THEN ChgE(ev, "GalSimUndefinedBoundsError")
  ELSE IF Size(p) > 0 /\ Kept(p) = 0 THEN ChgLax(ev)
  ELSE LET r == TLCEval(AddTo(p, im)) v == [im EXCEPT !.px = r.px] IN
       IF Brittle(p, r, im) THEN ChgLax(ev)
       ELSE IF ev.mode = "jit" THEN NewV(v, <<r.added>>) ELSE SetV(v, <<r.added>>)

\* positions: anywhere within the pixel, the same for the same seed
MakeEv(im, ev, memo) ==
  LET mx == ev.n[1] IN
  IF Le(mx, "0") THEN NewE("GalSimRangeError")
  ELSE IF im.b = <<>> THEN Lax("new")
  ELSE IF im.sc = "wcs" THEN NewE("any")
  ELSE LET src == Sources(im.px, mx, 1) n == Len(src) sc == IF im.sc = "none" THEN "1" ELSE im.sc
           o(k) == IF Len(ev.obs) >= 9 + 3 * n THEN ev.obs[9 + k] ELSE "nan"
           cx(i) == N(im.b[1] + ((src[i] - 1) % W(im.b))) cy(i) == N(im.b[3] + ((src[i] - 1) \div W(im.b)))
           inside(v, c) == Le(Abs(Sub(Div(v, sc), c)), "0.500000001")
           x == [i \in 1..n |-> IF inside(o(i), cx(i)) THEN o(i) ELSE "outside"]
           y == [i \in 1..n |-> IF inside(o(n + i), cy(i)) THEN o(n + i) ELSE "outside"]
           p == [Blank(n, n) EXCEPT !.x = x, !.y = y, !.f = [i \in 1..n |-> LET v == Div(im.px[src[i]], N(Per(im.px[src[i]], mx))) IN
                                                                 IF im.dt = "f4" /\ Close(v, o(2 * n + i), "1e-6", "0") THEN o(2 * n + i) ELSE v]]
           key == <<im.px, im.b, im.sc, mx, ev.s>>
           old == {k \in 1..Len(memo) : memo[k][1] = key} IN
       IF old # {} THEN LET q == memo[CHOOSE k \in old : TRUE][2] IN NewV([p EXCEPT !.x = q.x, !.y = q.y], <<>>)
       ELSE NewV(p, <<>>) @@ [memo |-> <<key, p>>]

Do(s, ev) ==
  LET h == s.h p == IF ev.a > 0 THEN h[ev.a] ELSE LaxV q == IF ev.b > 0 THEN h[ev.b] ELSE LaxV IN
  CASE ev.op = "pnew" -> MkPA(ev)
    [] ev.op = "pfrom" -> FromPA(ev)
    [] ev.op = "im" -> MkIm(ev)
    [] ev.op = "see" -> Obs(Look(p), IF p.t = "im" THEN ITol(p) ELSE PTol)
    [] ev.op = "put" -> IF Size(p) = 0 /\ Len(ev.arr[1][2]) > 1 THEN ChgLax(ev) ELSE IF FitsIn(ev.arr[1][2], Size(p)) THEN Chg(ev, PutAll(p, ev.arr)) ELSE ChgE(ev, "any")
    [] ev.op = "scalef" -> Chg(ev, ScaleF(p, ev.n[1]))
    [] ev.op = "scalexy" -> Chg(ev, ScaleP(p, ev.n[1]))
    [] ev.op = "settot" -> IF Size(p) = 0 \/ NEq(Total(p), "0") \/ Le(Abs(Total(p)), "1e-9") THEN ChgLax(ev) ELSE Chg(ev, ScaleF(p, Div(ev.n[1], Total(p))))
    [] ev.op = "corr" -> Chg(ev, [p EXCEPT !.corr = ev.s = "T"])
    [] ev.op = "keep" -> Chg(ev, SetKeep(p, I(ev.n[1])))
    [] ev.op = "copy" -> CopyEv(p, q, ev)
    [] ev.op = "assign" -> IF I(ev.n[1]) + Size(q) > Size(p) THEN ChgE(ev, "GalSimValueError")
                           ELSE CopyEv(p, q, [ev EXCEPT !.n = <<"T", "T", "T">>, !.i1 = <<"slice", ev.n[1], N(I(ev.n[1]) + Size(q)), "1">>, !.i2 = <<"all">>])
    [] ev.op = "conv" -> ConvEv(p, q, ev)
    [] ev.op = "addto" -> AddEv(q, p, ev)
    [] ev.op = "make" -> MakeEv(p, ev, s.memo)
    \* another of the same: through a file, a tree, a trace, text, or copying
    [] ev.op = "same" -> IF Size(p) = 0 /\ ev.s \in {"file", "repr"} THEN Lax("new")
         ELSE LET r == IF ev.s \in {"file", "repr"} THEN [p EXCEPT !.corr = FALSE, !.f = FluxOf(p)] ELSE p IN
              \* (the fluxes of a partly masked array are rescaled on the way: equal up to rounding only)
              NewV(r, IF ev.s \in {"file", "repr"} /\ Kept(p) # Size(p) /\ Len(ev.obs) > 0 THEN <<ev.obs[1]>> ELSE <<"T">>)
    [] ev.op = "eq" -> IF ev.s = "T" THEN Obs(<<"T", "F">>, Exact)
         ELSE LET e == PLook([p EXCEPT !.corr = FALSE]) f == PLook([q EXCEPT !.corr = FALSE]) IN
              IF e = f THEN Obs(<<"T", "F">>, Exact)
              ELSE IF Len(e) # Len(f) \/ (\E i \in 1..Len(e) : ~Close(e[i], f[i], "1e-6", "1e-9")) THEN Obs(<<"F", "T">>, Exact)
              ELSE Lax("obs")
Alias(ev) == ev.op \in {"see", "eq"} \/ (ev.op \in {"put", "scalef", "scalexy", "settot", "corr", "keep", "copy", "assign", "conv", "addto"} /\ ev.mode # "jit")
Sig(h, ev) == ev.op \o "/" \o ev.s \o "/" \o ev.mode
Step(s, ev) ==
  LET h == s.h refs == {ev.a, ev.b} \ {0} IN
  IF \E x \in refs : x > Len(h) \/ h[x].t = "LAX" THEN
     [st |-> [s EXCEPT !.h = IF ~Alias(ev) THEN Append(h, LaxV) ELSE IF ev.op \notin {"see", "eq"} /\ ev.a <= Len(h) THEN [h EXCEPT ![ev.a] = LaxV] ELSE h],
      exp |-> <<>>, err |-> "?", tol |-> Exact, clause |-> ev.op]
  ELSE LET r == TLCEval(Do(s, ev))
           nh == IF ~Alias(ev) THEN Append(h, r.h) ELSE IF r.k = "set" THEN [h EXCEPT ![ev.a] = r.h] ELSE h
           ns == [h |-> nh, memo |-> IF "memo" \in DOMAIN r THEN Append(s.memo, r.memo) ELSE s.memo] IN
       IF r.err # "" THEN Err(ns, r.err, Sig(h, ev)) ELSE Ok(ns, r.exp, r.tol, Sig(h, ev))

S0 == [h |-> <<>>, memo |-> <<>>]
TInit == l = 1 /\ st = S0 /\ dead = FALSE
TNext ==
  /\ l <= Len(Tr) /\ l' = l + 1
  /\ LET ev == Tr[l] IN
     IF ev.op = "reset" THEN st' = S0 /\ dead' = FALSE
     ELSE IF dead THEN UNCHANGED <<st, dead>>
     ELSE LET r == Step(st, ev) IN LET ok == Matches(r, ev) IN
          st' = r.st /\ dead' = ~ok /\ (IF ok THEN TRUE ELSE Report(l, r, ev))
  /\ (l = Len(Tr) => PrintT("DONE " \o ToString(l)))
=============================================================================
