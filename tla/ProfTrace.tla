------------------------------ MODULE ProfTrace ------------------------------
(* Recorded calls on real profiles; a heap of immutable profile values.        *)
EXTENDS Prof, TraceLib
VARIABLES l, st, dead

Lax == [t |-> "LAX"]
IsProbe(op) == op \in {"x", "k", "attrs", "lim", "gsq", "sizes"}
Pts(n) == [i \in 1..(Len(n) \div 2) |-> <<n[2 * i - 1], n[2 * i]>>]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Cat(SubSeq(s, 2, Len(s)))
TF(b) == IF b THEN "T" ELSE "F"
GSRow(g) == [i \in 1..Len(GSNames) |-> g[GSNames[i]]]
RECURSIVE GSTree(_)
GSTree(o) == GSRow(o.gs) \o Cat([i \in 1..Len(o.kids) |-> GSTree(o.kids[i])])

\* exact symmetry of a transformed profile is a matter of rounding: only clear cases
RECURSIVE Axi(_)
Axi(o) ==
  CASE o.t = "leaf" -> IF o.cls \in {"Box", "Pixel"} THEN "F" ELSE "T"
    [] o.t = "tr" -> LET k == Axi(o.kids[1])
                         off == Lt("1e-6", Add(Add(Abs(Sub(o.m[1], o.m[4])), Abs(Add(o.m[2], o.m[3]))), Add(Abs(o.d[1]), Abs(o.d[2])))) IN
         IF k = "F" \/ off THEN "F" ELSE IF k = "T" /\ o.m = I2 /\ o.d = Z2 THEN "T" ELSE "?"
    [] OTHER -> LET s == [i \in 1..Len(o.kids) |-> Axi(o.kids[i])] IN
         IF \E i \in 1..Len(s) : s[i] = "F" THEN "F" ELSE IF \E i \in 1..Len(s) : s[i] = "?" THEN "?" ELSE "T"

XTol(o) == IF HasT(o, {"Spergel"}) THEN <<"1e-6", "1e-13">> ELSE <<"1e-8", "1e-13">>
KTol(o) == IF HasT(o, {"Moffat"}) THEN <<"1e-6", Mul("3e-5", KScale(o))>>
           ELSE IF HasT(o, {"Spergel"}) THEN <<"1e-6", Mul("1e-13", KScale(o))>> ELSE <<"1e-8", Mul("1e-12", KScale(o))>>
\* the inverse of a transform that is known to an accuracy
KTolV(o, v) == IF HasT(o, {"Moffat"}) /\ HasT(o, {"deconv"})
               THEN <<"1e-6", Max2(KTol(o)[2], Mul("1e-5", Div(Sq(MaxS([i \in 1..Len(v) |-> Abs(v[i])])), Max2(Abs(Flux(o)), "1e-30"))))>>
               ELSE KTol(o)
\* pixels of a drawn transform; the place of a cut is known as well as the limits are
Drawn(o, ev) ==
  LET p == Pts(ev.n) m == Len(p) far == TLCEval([i \in 1..m |-> KDrawn(o, p[i], "1")])
      tol == KTolV(o, Cat(far)) got(i) == IF Len(ev.obs) = 2 * m THEN SubSeq(ev.obs, 2 * i - 1, 2 * i) ELSE <<>>
      pick(i) == IF ~HasT(o, {"deconv"}) THEN far[i]
                 ELSE IF \E f \in {"1", "0.96", "1.04"} : SeqClose(KDrawn(o, p[i], f), got(i), tol[1], tol[2]) THEN got(i) ELSE far[i] IN
  [e |-> "", v |-> Cat([i \in 1..m |-> pick(i)]), tol |-> tol]
LimTol(o) == IF HasT(o, {"Moffat"}) THEN <<"2e-3", "0">> ELSE IF HasT(o, {"Spergel"}) THEN <<"1e-5", "0">> ELSE <<"1e-8", "0">>

Probe(o, ev) ==
  CASE ev.op = "x" -> [e |-> IF XEvaluable(o) THEN "" ELSE "any",
                       v |-> IF XEvaluable(o) THEN [i \in 1..Len(Pts(ev.n)) |-> XVal(o, Pts(ev.n)[i])] ELSE <<>>, tol |-> XTol(o)]
    [] ev.op = "k" /\ ev.mode = "img" -> Drawn(o, ev)
    [] ev.op = "k" -> LET v == TLCEval(Cat([i \in 1..Len(Pts(ev.n)) |-> KVal(o, Pts(ev.n)[i])])) IN [e |-> "", v |-> v, tol |-> KTolV(o, v)]
    [] ev.op = "attrs" -> [e |-> "", tol |-> <<"1e-6", "1e-9">>,
         v |-> <<Flux(o), Centroid(o)[1], Centroid(o)[2], MaxSB(o), Flux(o), TF(HardEdges(o)), TF(AnalyticX(o)), "T",
                 \* (a truth value about numbers: not observed under jit)
                 IF Len(ev.obs) = 9 /\ (Axi(o) = "?" \/ ev.mode = "jit") THEN ev.obs[9] ELSE Axi(o)>>]
    [] ev.op = "lim" -> [e |-> "", tol |-> LimTol(o), v |-> <<StepK(o), MaxK(o), Div(Pi, MaxK(o))>>]
    [] ev.op = "gsq" -> [e |-> "", tol |-> Exact, v |-> GSTree(o)]
    [] ev.op = "sizes" -> [e |-> "", tol |-> <<"1e-6", "0">>, v |-> Sizes(o.cls, o.p) \o <<Flux(o)>>]

(* A whole program run inside jit / vmap / scan with every literal traced:   *)
(* same result as running it call by call.                                    *)
RECURSIVE RunCalls(_, _)
RunCalls(h, cs) == IF cs = <<>> THEN h ELSE RunCalls(Append(h, Call(h, cs[1]).o), SubSeq(cs, 2, Len(cs)))
ProgOut(o, p) ==
  CASE p.op = "x" -> [i \in 1..Len(Pts(p.n)) |-> XVal(o, Pts(p.n)[i])]
    [] p.op = "k" -> Cat([i \in 1..Len(Pts(p.n)) |-> KVal(o, Pts(p.n)[i])])
    [] p.op = "attrs" -> <<Flux(o), Centroid(o)[1], Centroid(o)[2], MaxSB(o)>>
    [] p.op = "lim" -> <<StepK(o), MaxK(o), Div(Pi, MaxK(o))>>
ProgTol(o, p) == CASE p.op = "x" -> XTol(o) [] p.op = "k" -> KTol(o) [] p.op = "lim" -> LimTol(o) [] OTHER -> <<"1e-6", "1e-9">>
Last(s) == s[Len(s)]

(* Derivatives: five-point central differences of the specification's value   *)
(* in each literal of the program (probe coordinates last).                   *)
Slots(ev) == Cat([i \in 1..Len(ev.calls) |-> [j \in 1..Len(ev.calls[i].n) |-> <<i, j>>]]) \o [j \in 1..Len(ev.probe.n) |-> <<0, j>>]
Lit(ev, w) == IF w[1] = 0 THEN ev.probe.n[w[2]] ELSE ev.calls[w[1]].n[w[2]]
With(ev, w, v) == IF w[1] = 0 THEN [ev EXCEPT !.probe.n[w[2]] = v] ELSE [ev EXCEPT !.calls[w[1]].n[w[2]] = v]
Q(ev) == ProgOut(Last(RunCalls(<<>>, ev.calls)), ev.probe)[ev.comp]
GStep(x) == Mul("2e-4", Max2(Abs(x), "0.5"))
QAt(ev, w, x, h) == Q(With(ev, w, Add(x, h)))
Deriv(ev, w) ==
  LET x == Lit(ev, w) h == GStep(x) h2 == Add(h, h)
      p1 == QAt(ev, w, x, h) m1 == QAt(ev, w, x, NNeg(h)) p2 == QAt(ev, w, x, h2) m2 == QAt(ev, w, x, NNeg(h2)) q0 == Q(ev)
      d == Div(Sub(Mul("8", Sub(p1, m1)), Sub(p2, m2)), Mul("12", h))
      dp == Div(Sub(p1, q0), h) dm == Div(Sub(q0, m1), h) c1 == Div(Sub(p1, m1), Mul("2", h)) c2 == Div(Sub(p2, m2), Mul("4", h)) IN
  [d |-> d, q |-> q0,
   \* one-sided differences agree up to the step: the quantity is differentiable here
   smooth |-> Le(Abs(Sub(dp, dm)), Add(Mul("0.02", Max2(Abs(dp), Abs(dm))), Mul("5e-4", Abs(q0)))) /\ Close(c1, c2, "1e-3", Add("1e-9", Mul("1e-6", Abs(q0))))]
\* documented exclusions: no derivative in Moffat's beta, none in Spergel's nu for surface brightness
Excluded(ev, w) ==
  w[1] > 0 /\ w[2] = 1 /\ ev.calls[w[1]].op = "leaf"
    /\ (ev.calls[w[1]].s = "Moffat" \/ (ev.calls[w[1]].s = "Spergel" /\ ev.probe.op = "x"))
GradRow(ev) == LET s == Slots(ev) IN
  [i \in 1..Len(s) |-> LET r == Deriv(ev, s[i]) IN IF ~Excluded(ev, s[i]) /\ r.smooth THEN r.d ELSE IF Len(ev.obs) = Len(s) THEN ev.obs[i] ELSE "0"]
GradTol(o, ev) == LET s == Add(Abs(Q(ev)), IF ev.probe.op = "k" THEN KScale(o) ELSE "0") IN
  IF HasT(o, {"Moffat"}) THEN <<"2e-3", Mul("1e-3", s)>> ELSE IF HasT(o, {"Spergel"}) THEN <<"1e-4", Mul("1e-5", s)>> ELSE <<"1e-6", Mul("1e-7", s)>>

ProgStep(h, ev) ==
  LET o == Last(RunCalls(<<>>, ev.calls)) c == ev.op \o "/" \o ev.mode \o "/" \o ev.probe.op \o "/" \o o.t IN
  IF Degenerate(o) THEN Err(h, "?", c)
  ELSE IF ev.op = "prog" THEN Ok(h, ProgOut(o, ev.probe), ProgTol(o, ev.probe), c)
  ELSE Ok(h, GradRow(ev), GradTol(o, ev), c)

Clause(o, ev) == ev.op \o "/" \o ev.mode \o "/" \o (IF o.t = "leaf" THEN o.cls ELSE o.t)
Step(h, ev) ==
  IF ev.op \in {"prog", "grad"} THEN ProgStep(h, ev)
  ELSE IF \E x \in {ev.a, ev.b} \cup {ev.hs[i] : i \in 1..Len(ev.hs)} : x > 0 /\ (x > Len(h) \/ h[x].t = "LAX") THEN
     [st |-> IF IsProbe(ev.op) THEN h ELSE Append(h, Lax), exp |-> <<>>, err |-> "?", tol |-> Exact, clause |-> ev.op]
  ELSE IF IsProbe(ev.op) THEN
     LET p == Probe(h[ev.a], ev) IN
     IF p.e # "" THEN Err(h, p.e, Clause(h[ev.a], ev)) ELSE Ok(h, p.v, p.tol, Clause(h[ev.a], ev))
  ELSE LET r == Call(h, ev) IN
     IF r.err # "" THEN Err(Append(h, Lax), r.err, ev.op \o "/" \o ev.s)
     ELSE IF Degenerate(r.o) THEN Err(Append(h, Lax), "?", ev.op)
     ELSE Ok(Append(h, r.o), <<>>, Exact, ev.op \o "/" \o ev.s)

TInit == l = 1 /\ st = <<>> /\ dead = FALSE
TNext ==
  /\ l <= Len(Tr) /\ l' = l + 1
  /\ LET ev == Tr[l] IN
     IF ev.op = "reset" THEN st' = <<>> /\ dead' = FALSE
     ELSE IF dead THEN UNCHANGED <<st, dead>>
     ELSE LET r == Step(st, ev) IN LET ok == Matches(r, ev) IN
          st' = r.st /\ dead' = ~ok /\ (IF ok THEN TRUE ELSE Report(l, r, ev))
  /\ (l = Len(Tr) => PrintT("DONE " \o ToString(l)))
=============================================================================
