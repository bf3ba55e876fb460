---------------------------- MODULE FourierTrace ----------------------------
(* Recorded wraps and transforms of real images.                              *)
EXTENDS Fourier, TraceLib
VARIABLES l, st, dead
S0 == [off |-> FALSE, ims |-> <<>>]
Bnd(b) == IF b = <<>> THEN <<"F">> ELSE <<"T", N(b[1]), N(b[2]), N(b[3]), N(b[4])>>
Look(im) == Bnd(im.b) \o <<im.dt, im.sc>> \o im.re \o im.im
Mag(im) == Add(NSum([q \in 1..Len(im.re) |-> Abs(im.re[q])]), NSum([q \in 1..Len(im.im) |-> Abs(im.im[q])]))
TolOf(im, f4) == LET e == IF f4 THEN "3e-6" ELSE "1e-11" IN <<e, Mul(e, Mag(im))>>
Lax0(s, cl) == [st |-> [s EXCEPT !.off = TRUE], exp |-> <<>>, err |-> "?", tol |-> Exact, clause |-> cl]
R(s, exp, tol, cl) == [st |-> s, exp |-> exp, err |-> "", tol |-> tol, clause |-> cl]
\* what was observed of an image, put in the place of what was expected (after the comparison)
Taken(v, obs, at) == LET n == NPix(v.b) IN
  IF Len(obs) = at + 2 * n THEN [v EXCEPT !.re = SubSeq(obs, at + 1, at + n), !.im = SubSeq(obs, at + n + 1, at + 2 * n)] ELSE v
Put(s, ev, v) == IF ev.mode = "" THEN [s EXCEPT !.ims[ev.a] = v] ELSE [s EXCEPT !.ims = Append(@, v)]
WrapEv(s, ev, cl) ==
  LET im == s.ims[ev.a] t == ev.t ax == ev.s IN
  IF ax \notin {"", "x", "y"} THEN Err(s, "GalSimValueError", cl)
  ELSE IF im.b = <<>> \/ t = <<>> THEN Err(s, "GalSimUndefinedBoundsError", cl)
  ELSE IF ~HermOK(im, t, ax) THEN Err(s, "GalSimIncompatibleValuesError", cl)
  ELSE IF ~Inside(t, im.b) THEN Err(s, "GalSimBoundsError", cl)
  ELSE IF ~HermMeant(im, t, ax) THEN Lax0(s, cl)
  ELSE LET w == TLCEval(Wrapped(im, t, ax)) n == NPix(im.b) c == Cut(w, t) m == 7 + 2 * NPix(t)
           \* outside the rectangle the image may keep anything
           got == IF Len(ev.obs) = m + 7 + 2 * n THEN SubSeq(ev.obs, m + 8, m + 7 + 2 * n) ELSE w.re \o w.im
           keep(q) == In(t, XOf(im.b, q), YOf(im.b, q))
           v == [w EXCEPT !.re = [q \in 1..n |-> IF keep(q) THEN w.re[q] ELSE got[q]], !.im = [q \in 1..n |-> IF keep(q) THEN w.im[q] ELSE got[n + q]]] IN
       R(Put(s, ev, v), Look(c) \o Look(v), TolOf(im, Flt4(im)), cl)
FftEv(s, ev, cl) ==
  LET im == s.ims[ev.a] IN
  IF im.b = <<>> THEN Err(s, "GalSimUndefinedBoundsError", cl)
  ELSE IF im.sc \in {"", "J"} THEN Err(s, "GalSimError", cl)
  ELSE IF Cplx(im) THEN Err(s, "NotImplementedError", cl)
  ELSE LET v == TLCEval(Forward(im)) e == "1e-11" IN
       R([s EXCEPT !.ims = Append(@, Taken(v, ev.obs, 7))], Look(v), <<e, Mul(e, Mul(Mul(im.sc, im.sc), Mag(im)))>>, cl)
IfftEv(s, ev, cl) ==
  LET im == s.ims[ev.a] IN
  IF im.b = <<>> THEN Err(s, "GalSimUndefinedBoundsError", cl)
  ELSE IF im.sc \in {"", "J"} THEN Err(s, "GalSimError", cl)
  ELSE IF ~In(im.b, 0, 0) THEN Err(s, "GalSimBoundsError", cl)
  ELSE IF HalfK(im.b) = 0 THEN Lax0(s, cl)
  ELSE LET v == TLCEval(Inverse(im)) e == IF Flt4(im) /\ im.b # KBounds(HalfK(im.b)) THEN "3e-6" ELSE "1e-11" IN
       R([s EXCEPT !.ims = Append(@, Taken(v, ev.obs, 7))], Look(v), <<e, Mul(e, Mul(Mul(im.sc, im.sc), Mag(im)))>>, cl)
Step(s, ev) ==
  LET cl == ev.op \o "/" \o ev.s \o "/" \o ev.mode IN
  IF s.off \/ ev.a > Len(s.ims) THEN [st |-> s, exp |-> <<>>, err |-> "?", tol |-> Exact, clause |-> cl]
  ELSE CASE ev.op = "im" -> R([s EXCEPT !.ims = Append(@, [b |-> ev.t, re |-> ev.re, im |-> ev.im, dt |-> ev.s, sc |-> ev.c])], <<>>, Exact, "im")
    [] ev.op = "see" -> R(s, Look(s.ims[ev.a]), TolOf(s.ims[ev.a], Flt4(s.ims[ev.a])), "see")
    [] ev.op = "wrap" -> WrapEv(s, ev, cl)
    [] ev.op = "badb" -> Err(s, "TypeError", cl)
    [] ev.op = "fft" -> FftEv(s, ev, cl)
    [] ev.op = "ifft" -> IfftEv(s, ev, cl)
    [] ev.op = "size" -> R(s, [q \in 1..Len(ev.re) |-> N(GoodSize(ev.re[q]))], Exact, cl)
TInit == l = 1 /\ st = S0 /\ dead = FALSE
TNext ==
  /\ l <= Len(Tr) /\ l' = l + 1
  /\ LET ev == Tr[l] IN
     IF ev.op = "reset" THEN st' = S0 /\ dead' = FALSE
     ELSE IF dead THEN UNCHANGED <<st, dead>>
     ELSE LET r == Step(st, ev) IN LET ok == Matches(r, ev) IN
          st' = r.st /\ dead' = ~ok /\ (IF ok THEN TRUE ELSE Report(l, r, ev))
  /\ (l = Len(Tr) => PrintT("DONE " \o ToString(l)))
=============================================================================
