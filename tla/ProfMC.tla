------------------------------- MODULE ProfMC -------------------------------
(***************************************************************************)
(* Model checking of the profile specification itself.                      *)
(*  Mode "tr"  : every chain of up to Depth calls on every leaf; the single *)
(*               composed map must agree with applying the calls one by one.*)
(*  Mode "co"  : every expression of up to Depth composition calls over a   *)
(*               pool of (transformed) leaves; linear-systems laws.         *)
(*  Mode "leaf": defining integrals of every basic profile.                 *)
(***************************************************************************)
EXTENDS Prof, TLC, FiniteSets
CONSTANTS Mode, Depth, Big
VARIABLES o, log, pool, done

G == Leaf("Gaussian", <<"1.3">>, "2.5", GSDefault)
E == Leaf("Exponential", <<"0.8">>, "-3.0", GSWith(GSDefault, << <<"maxk_threshold", "0.002">> >>))
M == Leaf("Moffat", <<"3.0", "1.1">>, "4.0", GSDefault)
S == Leaf("Spergel", <<"0.5", "0.9">>, "1.5", GSDefault)
B == Leaf("Box", <<"2.0", "1.5">>, "2.0", GSWith(GSDefault, << <<"folding_threshold", "0.01">>, <<"maximum_fft_size", "16384">> >>))
D == Leaf("DeltaFunction", <<>>, "0.5", GSDefault)

E0 == [op |-> "", a |-> 1, b |-> 0, hs |-> <<>>, n |-> <<>>, s |-> "", c |-> "", gs |-> <<>>]
EV(op, n, s) == [E0 EXCEPT !.op = op, !.n = n, !.s = s]
TrOps == { EV("expand", <<"1.5">>, ""), EV("dilate", <<"0.8">>, ""), EV("magnify", <<"1.3">>, ""),
           EV("shear", <<"0.2", "-0.1">>, "g"), EV("shear", <<"0.3", "0.2">>, "e"), EV("lens", <<"0.1", "0.2", "1.2">>, ""),
           EV("rotate", <<"30">>, ""), EV("transform", <<"0.9", "0.3", "-0.2", "1.1">>, ""),
           EV("transform", <<"-0.9", "0.3", "0.2", "1.1">>, ""), EV("shift", <<"0.7", "-0.4">>, ""),
           EV("scaleflux", <<"1.7">>, ""), EV("withflux", <<"5.0">>, ""), EV("neg", <<>>, ""),
           EV("trf", <<"1.1", "0.2", "0.1", "0.8", "0.3", "0.5", "2.0">>, "T") }

(* One call's own meaning, applied to any function of the plane:            *)
(* (call o)(x) = amp * o(M^-1 (x - d)); stated here from the documentation. *)
Ang(n) == Div(Mul(n, Pi), "180")
Shear2(g1, g2) == LET a == Div("1", Sqrt(Sub("1", Add(Sq(g1), Sq(g2))))) IN
  <<Mul(a, Add("1", g1)), Mul(a, g2), Mul(a, g2), Mul(a, Sub("1", g1))>>
Mat(e) == LET n == e.n IN
  CASE e.op \in {"expand", "dilate"} -> <<n[1], "0", "0", n[1]>>
    [] e.op = "magnify" -> <<Sqrt(n[1]), "0", "0", Sqrt(n[1])>>
    [] e.op = "shear" -> IF e.s = "g" THEN Shear2(n[1], n[2])
         ELSE LET em == Hyp(n[1], n[2]) gm == Tanh(Half(Atanh(em))) IN Shear2(Mul(n[1], Div(gm, em)), Mul(n[2], Div(gm, em)))
    [] e.op = "lens" -> MScale(Shear2(n[1], n[2]), Sqrt(n[3]))
    [] e.op = "rotate" -> <<Cos(Ang(n[1])), NNeg(Sin(Ang(n[1]))), Sin(Ang(n[1])), Cos(Ang(n[1]))>>
    [] e.op = "transform" -> n
    [] e.op = "trf" -> SubSeq(n, 1, 4)
    [] OTHER -> I2
Off(e) == CASE e.op = "shift" -> e.n [] e.op = "trf" -> <<e.n[5], e.n[6]>> [] OTHER -> Z2
\* the documented change of flux, given the flux before
FluxAfter(e, f) ==
  CASE e.op = "expand" -> Mul(f, Sq(e.n[1]))
    [] e.op \in {"dilate", "shear", "rotate", "shift"} -> f
    [] e.op = "magnify" -> Mul(f, e.n[1])
    [] e.op = "lens" -> Mul(f, e.n[3])
    [] e.op = "transform" -> Mul(f, Abs(Det(e.n)))
    [] e.op = "trf" -> Mul(Mul(f, e.n[7]), Abs(Det(SubSeq(e.n, 1, 4))))
    [] e.op = "scaleflux" -> Mul(f, e.n[1])
    [] e.op = "withflux" -> e.n[1]
    [] e.op = "neg" -> NNeg(f)
RECURSIVE FluxN(_, _)
FluxN(lg, lf) == IF lg = <<>> THEN lf.flux ELSE FluxAfter(lg[Len(lg)], FluxN(SubSeq(lg, 1, Len(lg) - 1), lf))
\* surface brightness: keep the flux, move the points
RECURSIVE XN(_, _, _)
XN(lg, lf, pos) ==
  IF lg = <<>> THEN LeafX(lf, pos)
  ELSE LET e == lg[Len(lg)] r == SubSeq(lg, 1, Len(lg) - 1) m == Mat(e)
           amp == Div(FluxN(lg, lf), Mul(FluxN(r, lf), Abs(Det(m)))) IN
       Mul(amp, XN(r, lf, MatVec(Inv2(m), VSub(pos, Off(e)))))
RECURSIVE CenN(_)
CenN(lg) == IF lg = <<>> THEN Z2 ELSE LET e == lg[Len(lg)] IN VAdd(Off(e), MatVec(Mat(e), CenN(SubSeq(lg, 1, Len(lg) - 1))))

(* --------------------------------- steps --------------------------------- *)
Leaves == CASE Mode = "tr" -> {G, M, S, B}
            [] Mode = "leaf" -> {G, E, M, S, [S EXCEPT !.p = <<"-0.4", "1.2">>], [M EXCEPT !.p = <<"2.2", "0.9">>]}
            [] OTHER -> {G}
TM == Transform(M, <<"1.1", "0.2", "-0.1", "0.9">>, <<"0.6", "-0.3">>, "1.5")
Pool0 == IF Big THEN <<G, E, B, D, TM>> ELSE <<G, B, TM>>
Init == /\ o \in Leaves /\ log = <<>> /\ pool = IF Mode = "co" THEN Pool0 ELSE <<o>>
        /\ done = FALSE
NextTr == /\ Mode = "tr" /\ Len(log) < Depth
          /\ \E e \in TrOps : o' = Call(<<o>>, e).o /\ log' = Append(log, e)
          /\ UNCHANGED <<pool, done>>
CoEv(i, j, k) == { [E0 EXCEPT !.op = "sum", !.hs = <<i, j>>], [E0 EXCEPT !.op = "conv", !.hs = <<i, j>>],
  [E0 EXCEPT !.op = "conv", !.hs = <<i, j, k>>], [E0 EXCEPT !.op = "deconv", !.a = i], [E0 EXCEPT !.op = "sub", !.a = i, !.b = k],
  [E0 EXCEPT !.op = "shift", !.a = i, !.n = <<"0.5", "0.25">>], [E0 EXCEPT !.op = "rotate", !.a = k, !.n = <<"40">>],
  [E0 EXCEPT !.op = "mul", !.a = i, !.n = <<"-1.5">>], [E0 EXCEPT !.op = "gs", !.a = j, !.gs = << <<"maxk_threshold", "0.01">> >>] }
NextCo == /\ Mode = "co" /\ Len(log) < Depth
          /\ \E i, j, k \in 1..Len(pool) :
               /\ i < j /\ (k = Len(pool) \/ (Big /\ ((k = 1 /\ i = 1) \/ (k = 3 /\ j = 3))))
               /\ (Len(log) > 0 => Len(pool) \in {i, j, k})
               /\ \E e \in CoEv(i, j, k) : LET r == Call(pool, e) IN
                    /\ r.err = "" /\ ~Degenerate(r.o) /\ o' = r.o /\ log' = Append(log, e) /\ pool' = Append(pool, r.o)
          /\ UNCHANGED done
Next == NextTr \/ NextCo

(* --------------------------------- laws ---------------------------------- *)
Pts3 == {<<"0.31", "-0.47">>, <<"1.9", "0.8">>}
Ks == {<<"0.4", "-0.9">>, <<"-1.7", "0.6">>}
C9(a, b, s) == Close(a, b, "1e-9", Mul("1e-9", s))
TrLaws ==
  Mode = "tr" =>
    LET lf == pool[1] f == Flux(o) IN
    /\ C9(f, FluxN(log, lf), "1")
    /\ \A p \in Pts3 : C9(XVal(o, p), XN(log, lf, p), "1")
    /\ LET c == CenN(log) IN C9(Centroid(o)[1], c[1], "1") /\ C9(Centroid(o)[2], c[2], "1")
    \* the transform at the origin is the flux, its slope the centroid
    /\ LET k0 == KVal(o, Z2) kx == KVal(o, <<"1e-5", "0">>) IN
       /\ C9(k0[1], f, "1") /\ NEq(Abs(k0[2]), "0")
       /\ Close(NNeg(Div(kx[2], "1e-5")), Mul(f, Centroid(o)[1]), "1e-4", "1e-4")
    \* the transform of a real function is Hermitian
    /\ \A k \in Ks : LET a == KVal(o, k) b == KVal(o, <<NNeg(k[1]), NNeg(k[2])>>) IN C9(a[1], b[1], "1") /\ C9(a[2], NNeg(b[2]), "1")
    \* the peak is the value at the centre
    /\ C9(MaxSB(o), XVal(o, Centroid(o)), Abs(MaxSB(o)))
    \* one transformation node at most
    /\ (o.t = "tr" => o.kids[1].t = "leaf")
    /\ Lt(StepK(o), MaxK(o))
TrStep ==   \* flux changes touch neither resolution limit nor the shape
  [][Mode = "tr" /\ log'[Len(log')].op \in {"scaleflux", "withflux", "neg"} =>
       C9(StepK(o'), StepK(o), "1") /\ C9(MaxK(o'), MaxK(o), "1") /\ GSSame(o'.gs, o.gs)
       /\ \A p \in Pts3 : C9(Mul(XVal(o', p), Flux(o)), Mul(XVal(o, p), Flux(o')), "1")]_<<o, log, pool, done>>

RECURSIVE AllGS(_, _)
AllGS(x, g) == GSSame(x.gs, g) /\ \A i \in 1..Len(x.kids) : AllGS(x.kids[i], g)
KEq(x, y) == \A k \in Ks : LET a == KVal(x, k) b == KVal(y, k) s == Add("1", KScale(x)) IN C9(a[1], b[1], s) /\ C9(a[2], b[2], s)
CoLaws ==
  Mode = "co" /\ log # <<>> =>
    LET a == pool[Len(pool)] b == E c == TM f == Flux(a) k0 == KVal(a, Z2) s == Add("1", KScale(a)) IN
    \* accuracy settings reach every part
    /\ AllGS(a, a.gs)
    /\ C9(k0[1], f, s) /\ C9(k0[2], "0", s)
    /\ (~HasT(a, {"deconv"}) => \A i \in 1..2 :
          LET h == "1e-5" k == IF i = 1 THEN <<h, "0">> ELSE <<"0", h>> IN
          Close(NNeg(Div(KVal(a, k)[2], h)), Mul(f, Centroid(a)[i]), "1e-3", Mul("1e-3", s)))
    \* sums and convolutions do not depend on order or grouping
    /\ KEq(SumOf(<<a, b>>), SumOf(<<b, a>>)) /\ KEq(ConvOf(<<a, b>>), ConvOf(<<b, a>>))
    /\ KEq(SumOf(<<a, SumOf(<<b, c>>)>>), SumOf(<<SumOf(<<a, b>>), c>>))
    /\ KEq(ConvOf(<<ConvOf(<<a, b>>), c>>), ConvOf(<<a, b, c>>))
    \* convolution distributes over sums; maps commute with both
    /\ KEq(ConvOf(<<SumOf(<<a, b>>), c>>), SumOf(<<ConvOf(<<a, c>>), ConvOf(<<b, c>>)>>))
    /\ LET m == <<"0.9", "0.3", "-0.2", "1.1">> T(x) == Transform(x, m, Z2, "1") IN
       /\ KEq(T(SumOf(<<a, b>>)), SumOf(<<T(a), T(b)>>))
       /\ KEq(Transform(ConvOf(<<a, b>>), m, Z2, Abs(Det(m))), ConvOf(<<T(a), T(b)>>))
    \* a sum is never nested, refusal to evaluate is structural
    /\ (a.t = "sum" => \A i \in 1..Len(a.kids) : a.kids[i].t # "sum")
    /\ (a.t = "deconv" /\ ~HasT(a.kids[1], {"deconv"}) => \A k \in Ks : LET v == KVal(ConvOf(<<a, a.kids[1]>>), k) IN
          Lt(Sqrt(CAbs2(KVal(a.kids[1], k))), MinAcc(a)) \/ (C9(v[1], "1", "1") /\ C9(v[2], "0", "1")))
    \* resolution limits of composites
    /\ (a.t = "conv" /\ Lt(StepK(a), "1e200") => \A i \in 1..Len(a.kids) : Le(MaxK(a), MaxK(a.kids[i])) /\ Le(StepK(a), StepK(a.kids[i])))
    /\ (a.t = "sum" => \A i \in 1..Len(a.kids) : Le(MaxK(a.kids[i]), MaxK(a)) /\ Le(StepK(a), StepK(a.kids[i])))

(* defining integrals: Simpson rule in t, r = R t^4 (resolves cusps) *)
Hankel(lf, kk, R, n) ==
  Div(NSum([i \in 1..n |->
     LET t == Div(N(i), N(n)) r == Mul(R, Sq(Sq(t))) w == IF i = n THEN "1" ELSE IF i % 2 = 1 THEN "4" ELSE "2" IN
     Mul(w, Mul(Mul(Mul(TwoPi, r), LeafX(lf, <<r, "0">>)), Mul(BesselJ0(Mul(kk, r)), Mul("4", Mul(R, Mul(t, Sq(t)))))))]), N(3 * n))
NoTrunc(lf) == [lf EXCEPT !.gs = GSWith(@, << <<"xvalue_accuracy", "1e-12">> >>)]
LeafLaws ==
  Mode = "leaf" =>
    LET far == IF o.cls = "Moffat" THEN "3000" ELSE "40" n == IF o.cls = "Moffat" THEN 8000 ELSE 1600
        hl == CASE o.cls = "Gaussian" -> Sizes(o.cls, o.p)[2] [] o.cls = "Exponential" -> Sizes(o.cls, o.p)[2] [] OTHER -> Sizes(o.cls, o.p)[3] IN
    /\ \A k \in (IF o.cls = "Moffat" THEN {"0"} ELSE {"0", "0.7", "2.9"}) :
         Close(Hankel(NoTrunc(o), k, far, n), LeafK(o, <<k, "0">>), "1e-4", "1e-5")
    /\ (o.cls = "Moffat" => Close(Hankel(NoTrunc(o), "0.9", "300", 8000), LeafK(o, <<"0.9", "0">>), "1e-3", "1e-3"))
    /\ Close(Hankel(NoTrunc(o), "0", hl, 600), Half(o.flux), "1e-4", "1e-6")
    \* the Fourier transform has fallen to the threshold at maxk
    /\ Close(LeafK(o, <<LeafMaxK(o), "0">>), Mul(o.flux, o.gs.maxk_threshold), "5e-2", "0")
    \* at most the folding threshold lies beyond pi/stepk
    /\ Le(Sub("1", Div(Hankel(NoTrunc(o), "0", Div(Pi, LeafStepK(o)), 800), o.flux)), Mul("1.05", o.gs.folding_threshold))
    /\ (o.cls \in {"Gaussian", "Moffat"} => LET q == Sizes(o.cls, o.p) IN
          C9(LeafX(o, <<Half(q[Len(q)]), "0">>), Half(LeafX(o, Z2)), "1"))
=============================================================================
