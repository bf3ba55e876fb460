-------------------------------- MODULE Interp --------------------------------
(***************************************************************************)
(* Interpolation kernels and images turned into profiles.                  *)
(* A kernel is [t |-> "k", name, n, dc, kva, ts, kr, kj]: kj holds the samples  *)
(* of a Lanczos kernel's own transform at 1..5 cycles per pixel.           *)
(* An interpolated image is the function of position                       *)
(*     f(p) = amp * SUM_{i,j} px[j][i] K(u - i) K(v - j),                   *)
(*     (u, v) = jac^-1 p + off,                                            *)
(* and the function of frequency the discrete transform of the pixels      *)
(* interpolated between the modes of an N x N grid, times K's transform.   *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets, TLC

TwoPi == "6.283185307179586"
RECURSIVE NPow(_, _)
NPow(x, k) == IF k = 0 THEN "1" ELSE Mul(x, NPow(x, k - 1))
Sum(s) == NSum(s)
MaxI(a, b) == IF a < b THEN b ELSE a
MinI(a, b) == IF a < b THEN a ELSE b
AbsI(a) == IF a < 0 THEN 0 - a ELSE a
CMul(u, v) == <<Sub(Mul(u[1], v[1]), Mul(u[2], v[2])), Add(Mul(u[1], v[2]), Mul(u[2], v[1]))>>
CScale(f, u) == <<Mul(f, u[1]), Mul(f, u[2])>>
CSum(s) == <<Sum([i \in 1..Len(s) |-> s[i][1]]), Sum([i \in 1..Len(s) |-> s[i][2]])>>
Wave(ph) == <<Cos(ph), Sin(ph)>>

(* ------------------------------ the kernels ------------------------------ *)
\* transform at u cycles per pixel of sinc(x) sinc(x/n), |x| < n
RawU(u, n) ==
  LET vp == Mul(N(n), Add(Mul("2", u), "1")) vm == Mul(N(n), Sub(Mul("2", u), "1"))
      S(v) == Mul(v, SinInt(Mul(Pi, v))) IN
  Div(Add(Sub(S(Sub(vm, "1")), S(Add(vm, "1"))), Sub(S(Add(vp, "1")), S(Sub(vp, "1")))), TwoPi)
Kernel(name, n, dc, kva, ts) ==
  [t |-> "k", name |-> name, n |-> n, dc |-> dc, kva |-> kva, ts |-> ts, kr |-> "1e9",
   kj |-> IF name = "Lanczos" THEN [j \in 1..5 |-> RawU(N(j), n)] ELSE <<>>]

Lanczos0(x, n) == Mul(Sinc(x), Sinc(Div(x, N(n))))
\* divided by (nearly) the sum of its own values one pixel apart, so that a constant stays one
Flat(kj, x) == Add("1", Mul("2", Sum([j \in 1..5 |-> Mul(kj[j], Sub(Cos(Mul(TwoPi, Mul(N(j), x))), "1"))])))
Poly(c, x) == \* c[1] + c[2] x + ...
  LET RECURSIVE H(_)
      H(i) == IF i = Len(c) THEN c[i] ELSE Add(c[i], Mul(x, H(i + 1))) IN H(1)
Twelfth(v) == Div(v, "12")
XVal(K, xx) ==
  LET x == Abs(xx) IN
  CASE K.name = "Delta" -> IF Lt(Half(K.kva), x) THEN "0" ELSE Div("1", K.kva)
    [] K.name = "Nearest" -> IF Lt("0.5", x) THEN "0" ELSE "1"
    [] K.name = "Linear" -> IF Lt("1", x) THEN "0" ELSE Sub("1", x)
    [] K.name = "Cubic" -> IF Lt(x, "1") THEN Poly(<<"1", "0", "-2.5", "1.5">>, x)
                           ELSE IF Lt(x, "2") THEN Poly(<<"2", "-4", "2.5", "-0.5">>, x) ELSE "0"
    [] K.name = "Quintic" ->
         IF Le(x, "1") THEN Twelfth(Poly(<<"12", "0", "0", "-95", "138", "-55">>, x))
         ELSE IF Le(x, "2") THEN Div(Mul(Mul(Sub(x, "1"), Sub(x, "2")), Poly(<<"-138", "348", "-249", "55">>, x)), "24")
         ELSE IF Le(x, "3") THEN Div(Mul(Mul(Sub(x, "2"), Sq(Sub(x, "3"))), Poly(<<"-54", "50", "-11">>, x)), "24") ELSE "0"
    [] K.name = "Sinc" -> Sinc(x)
    [] K.name = "Lanczos" -> IF Le(N(K.n), x) THEN "0"
                             ELSE IF K.dc THEN Div(Lanczos0(x, K.n), Flat(K.kj, x)) ELSE Lanczos0(x, K.n)

\* one over Flat, to third order in the kj: the weights of the raw transform and its neighbours
DcW(k) == <<Add("1", Mul("2", Sum(<<Mul(k[1], Sum(<<"1", Mul("3", k[1]), k[2], k[3]>>)), k[2], k[3], k[4], k[5]>>))),
            NNeg(Mul(k[1], Sum(<<"1", Mul("4", k[1]), k[2], Mul("2", k[3])>>))),
            Sub(Mul(k[1], Add(Sub(k[1], Mul("2", k[2])), k[3])), k[2]),
            Sub(Mul(k[1], Sub(k[1], Mul("2", k[3]))), k[3]),
            Sub(Mul(k[1], k[3]), k[4]),
            NNeg(k[5])>>
LanczosU(K, u) ==
  IF ~K.dc THEN RawU(u, K.n)
  ELSE LET w == DcW(K.kj) IN
       Sum(<<Mul(w[1], RawU(u, K.n))>> \o [j \in 1..5 |-> Mul(w[j + 1], Add(RawU(Add(u, N(j)), K.n), RawU(Sub(u, N(j)), K.n)))])
UVal(K, uu) ==
  LET u == Abs(uu) s == Sinc(u) c == Cos(Mul(Pi, u)) p2 == Sq(Mul(Pi, u)) IN
  CASE K.name = "Delta" -> "1"
    [] K.name = "Nearest" -> s
    [] K.name = "Linear" -> Sq(s)
    [] K.name = "Cubic" -> Mul(NPow(s, 3), Sub(Mul("3", s), Mul("2", c)))
    [] K.name = "Quintic" -> Mul(NPow(s, 5), Add(Mul(s, Sub("55", Mul("19", p2))), Mul(Mul("2", c), Sub(p2, "27"))))
    [] K.name = "Sinc" -> IF Lt("0.5", u) THEN "0" ELSE IF Lt(u, "0.5") THEN "1" ELSE "0.5"
    [] K.name = "Lanczos" -> LanczosU(K, u)

XRange(K) ==
  CASE K.name = "Delta" -> "0" [] K.name = "Nearest" -> "0.5" [] K.name = "Linear" -> "1" [] K.name = "Cubic" -> "2"
    [] K.name = "Quintic" -> "3" [] K.name = "Sinc" -> Div("1", Mul(Pi, K.kva)) [] K.name = "Lanczos" -> N(K.n)
IXRange(K) == CASE K.name = "Delta" -> 0 [] K.name = "Nearest" -> 1 [] OTHER -> 2 * I(Ceil(XRange(K)))
\* a Lanczos kernel's transform ends at the last step above the accuracy before a calm stretch of 1/n
\* (looked for at or beyond 1.1); kr is checked to be that place rather than searched for
StepU(K) == Div(Mul(K.ts, Pow(Div(K.kva, "200"), "0.25")), N(K.n))
Ends(K, kr) ==
  LET du == StepU(K) u == Div(kr, TwoPi) m == I(Rint(Div(u, du)))
      calm == I(Ceil(Div(Div("1", N(K.n)), du)))
      up(j) == Lt(K.kva, Abs(LanczosU(K, Mul(N(j), du))))
      from == LET w == I(Floor(Div("1.1", du))) IN IF w - calm < 0 THEN 0 ELSE w - calm IN
  /\ IsNum(kr) /\ Close(u, Mul(N(m), du), "1e-9", "0") /\ up(m)
  /\ \A j \in (m + 1)..(IF m + calm - 1 < from + calm THEN from + calm ELSE m + calm - 1) : ~up(j)
  \* nothing as calm before
  /\ \A w \in 0..(IF m < from THEN -1 ELSE (m - from) \div calm) : \E j \in (from + w * calm)..(from + (w + 1) * calm + 1) : up(j)
KRange(K) ==
  CASE K.name = "Delta" -> Div(TwoPi, K.kva)
    [] K.name = "Nearest" -> Div("2", K.kva)
    [] K.name = "Linear" -> Div("2", Sqrt(K.kva))
    [] K.name = "Cubic" -> Mul("2", Pow(Div(Mul("0.375", Sqrt("3")), K.kva), Div("1", "3")))
    [] K.name = "Quintic" -> Mul("2", Pow(Div(Mul(Div("25", "108"), Sqrt("5")), K.kva), Div("1", "3")))
    [] K.name = "Sinc" -> Pi
    [] K.name = "Lanczos" -> K.kr

\* (the tabulated transform of a Lanczos kernel is zero beyond its range)
Beyond(K, k) == Lt(KRange(K), Abs(k))
KVal(K, k) == IF K.name = "Lanczos" /\ Beyond(K, k) THEN "0" ELSE UVal(K, Div(k, TwoPi))

\* integrals of the kernel, by quadrature
GX == <<"0.1488743389816312", "0.4333953941292472", "0.6794095682990244", "0.8650633666889845", "0.9739065285171717">>
GW == <<"0.2955242247147529", "0.2692667193099963", "0.2190863625159821", "0.1494513491505806", "0.0666713443086881">>
Quad(F(_), a, b) ==
  LET c == Half(Add(a, b)) h == Half(Sub(b, a)) IN
  Mul(h, Sum([i \in 1..5 |-> Mul(GW[i], Add(F(Add(c, Mul(h, GX[i]))), F(Sub(c, Mul(h, GX[i])))))]))
Piece(K, a, b) == LET F(x) == XVal(K, x) IN Quad(F, a, b)
\* the integral over the pixel i away
Unit(K, i) ==
  CASE K.name \in {"Delta", "Nearest"} -> IF i = 0 THEN "1" ELSE "0"
    [] K.name = "Sinc" -> Div(Sub(SinInt(Mul(Pi, Add(N(i), "0.5"))), SinInt(Mul(Pi, Sub(N(i), "0.5")))), Pi)
    [] i = 0 -> Mul("2", Piece(K, "0", "0.5"))
    [] OTHER -> Add(Piece(K, Sub(N(i), "0.5"), N(i)), Piece(K, N(i), Add(N(i), "0.5")))
Units(K) == CASE K.name \in {"Delta", "Nearest"} -> 1 [] OTHER -> (IXRange(K) \div 2) + 1
\* what is above and what below zero; the sign changes at whole pixels, and for Quintic once more
Parts(K) ==
  CASE K.name \in {"Delta", "Nearest", "Linear"} -> <<"1", "0">>
    [] K.name = "Sinc" ->
         LET m == (IXRange(K) \div 2) + 1
             n == m + (m % 2)
             v == TLCEval([j \in 1..n |-> Div(Sub(SinInt(Mul(Pi, N(j))), SinInt(Mul(Pi, N(j - 1)))), Pi)])
             p == Mul("2", Sum([j \in 1..n |-> Max2(v[j], "0")])) IN <<p, Sub(p, "1")>>
    [] OTHER ->
         LET r == I(Ceil(XRange(K))) cut == IF K.name = "Quintic" THEN 100 ELSE 1
             v == TLCEval([j \in 1..(r * cut) |-> Piece(K, Div(N(j - 1), N(cut)), Div(N(j), N(cut)))])
             p == Sum([j \in 1..(r * cut) |-> Max2(v[j], "0")]) q == Sum([j \in 1..(r * cut) |-> Min2(v[j], "0")]) IN
         \* in units of their difference, as the photons carry it
         <<Div(p, Add(p, q)), NNeg(Div(q, Add(p, q)))>>

(* ------------------------- images made into profiles ---------------------- *)
RECURSIVE Pow2At(_, _)
Pow2At(n, p) == IF p >= n THEN p ELSE Pow2At(n, 2 * p)
\* the smallest 2^k or 3*2^k that holds n
GoodFFT(n) == IF n <= 2 THEN 2 ELSE LET a == Pow2At(n, 4) b == Pow2At(n, 3) IN MinI(a, b)
\* the number of modes along each side for an nx by ny image padded by a factor
Modes(nx, ny, pad) ==
  LET m == MaxI(nx, ny)
      want == IF Lt("1", pad) THEN I(Ceil(Mul(pad, N(m)))) ELSE m
      side == m + 2 * ((GoodFFT(want) - m) \div 2) IN
  2 * ((side + 1) \div 2)
Inv(m) == LET d == Sub(Mul(m[1], m[4]), Mul(m[2], m[3])) IN <<Div(m[4], d), NNeg(Div(m[2], d)), NNeg(Div(m[3], d)), Div(m[1], d)>>
Det(m) == Abs(Sub(Mul(m[1], m[4]), Mul(m[2], m[3])))
MV(m, v) == <<Add(Mul(m[1], v[1]), Mul(m[2], v[2])), Add(Mul(m[3], v[1]), Mul(m[4], v[2]))>>
MT(m, v) == <<Add(Mul(m[1], v[1]), Mul(m[3], v[2])), Add(Mul(m[2], v[1]), Mul(m[4], v[2]))>>
MM(a, b) == <<Add(Mul(a[1], b[1]), Mul(a[2], b[3])), Add(Mul(a[1], b[2]), Mul(a[2], b[4])),
              Add(Mul(a[3], b[1]), Mul(a[4], b[3])), Add(Mul(a[3], b[2]), Mul(a[4], b[4]))>>
Spread(m) == LET p == Sqrt(Add(Sq(Add(m[1], m[4])), Sq(Sub(m[2], m[3])))) q == Sqrt(Add(Sq(Sub(m[1], m[4])), Sq(Add(m[2], m[3])))) IN
  <<Half(Add(p, q)), Half(Abs(Sub(p, q)))>>   \* largest and smallest stretch

\* o: [t |-> "ii", px (rows), nx, ny, off, jac, amp, xk, kk, modes, gs, smode, kmode]
X0(o) == 0 - (o.nx \div 2)
Y0(o) == 0 - (o.ny \div 2)
PixSum(o) == Sum([j \in 1..o.ny |-> Sum(o.px[j])])
PixAbs(o) == LET pos == Sum([j \in 1..o.ny |-> Sum([i \in 1..o.nx |-> Max2(o.px[j][i], "0")])]) IN <<pos, Sub(pos, PixSum(o))>>
Weights(K, u, x0, n) == [i \in 1..n |-> LET z == Sub(u, N(x0 + i - 1)) IN IF Lt(Add(XRange(K), "1"), Abs(z)) THEN "0" ELSE XVal(K, z)]
XVal2(o, p) ==
  LET q == MV(Inv(o.jac), p)
      wx == TLCEval(Weights(o.xk, Add(q[1], o.off[1]), X0(o), o.nx))
      wy == TLCEval(Weights(o.xk, Add(q[2], o.off[2]), Y0(o), o.ny)) IN
  Mul(o.amp, Sum([j \in 1..o.ny |-> IF wy[j] = "0" THEN "0" ELSE Mul(wy[j], Sum([i \in 1..o.nx |-> Mul(wx[i], o.px[j][i])]))]))
\* exp(-i k x) at every pixel, with k taken from the modes around it
Along(o, k, x0, n) ==
  LET dk == Div(TwoPi, N(o.modes)) s == Div(k, dk) f == I(Floor(s)) r == (IXRange(o.kk) + 1) \div 2
      q == TLCEval([m \in 1..(2 * r + 1) |-> f + m - r - 1])
      w == TLCEval([m \in 1..(2 * r + 1) |-> XVal(o.kk, Sub(s, N(q[m])))]) IN
  [i \in 1..n |-> CSum([m \in 1..(2 * r + 1) |-> IF w[m] = "0" THEN <<"0", "0">>
                       ELSE CScale(w[m], Wave(NNeg(Mul(dk, N(q[m] * (x0 + i - 1))))))])]
Grid(o, ax, ay) == CSum([j \in 1..o.ny |-> CMul(ay[j], CSum([i \in 1..o.nx |-> CScale(o.px[j][i], ax[i])]))])
KVal2(o, kp) ==
  LET k == MT(o.jac, kp) IN
  IF Beyond(o.xk, k[1]) \/ Beyond(o.xk, k[2]) THEN <<"0", "0">>
  ELSE LET ax == TLCEval(Along(o, k[1], X0(o), o.nx)) ay == TLCEval(Along(o, k[2], Y0(o), o.ny)) IN
       CScale(Mul(Mul(o.amp, Det(o.jac)), Mul(KVal(o.xk, k[1]), KVal(o.xk, k[2]))),
              CMul(Wave(Add(Mul(k[1], o.off[1]), Mul(k[2], o.off[2]))), Grid(o, ax, ay)))
\* the transform without the interpolation between modes: what photons sample
KTrue2(o, kp) ==
  LET k == MT(o.jac, kp)
      e(kk, x0, n) == [i \in 1..n |-> Wave(NNeg(Mul(kk, N(x0 + i - 1))))] IN
  CScale(Mul(Mul(o.amp, Det(o.jac)), Mul(KVal(o.xk, k[1]), KVal(o.xk, k[2]))),
         CMul(Wave(Add(Mul(k[1], o.off[1]), Mul(k[2], o.off[2]))), Grid(o, e(k[1], X0(o), o.nx), e(k[2], Y0(o), o.ny))))
Flux2(o) == Mul(Mul(o.amp, Det(o.jac)), PixSum(o))
Centroid2(o) ==
  LET tot == PixSum(o)
      cx == Div(Sum([j \in 1..o.ny |-> Sum([i \in 1..o.nx |-> Mul(N(X0(o) + i - 1), o.px[j][i])])]), tot)
      cy == Div(Sum([j \in 1..o.ny |-> Mul(N(Y0(o) + j - 1), Sum(o.px[j]))]), tot) IN
  MV(o.jac, <<Sub(cx, o.off[1]), Sub(cy, o.off[2])>>)
MaxSB2(o) == LET RECURSIVE M(_, _)
                 M(s, i) == IF i > Len(s) THEN "0" ELSE Max2(Abs(s[i]), M(s, i + 1))
                 RECURSIVE R(_)
                 R(j) == IF j > o.ny THEN "0" ELSE Max2(M(o.px[j], 1), R(j + 1)) IN Mul(o.amp, R(1))
\* flux carried by positive and by negative photons
PosNeg2(o) ==
  LET q == PixAbs(o) k == Parts(o.xk) s == Mul(o.amp, Det(o.jac))
      same == Add(Sq(k[1]), Sq(k[2])) opp == Mul("2", Mul(k[1], k[2])) IN
  <<Mul(s, Add(Mul(same, q[1]), Mul(opp, q[2]))), Mul(s, Add(Mul(same, q[2]), Mul(opp, q[1])))>>
\* the half-width of the smallest square around the middle that holds enough of the flux
HalfSize(o) ==
  LET want == Mul(Sub("1", o.gs.fold), PixSum(o))
      lim == IF o.smode \in {"T", "F"} THEN MaxI(o.nx, o.ny) ELSE I(Ceil(Div(Pi, o.smode)))
      in(d) == Sum([j \in 1..o.ny |-> IF AbsI(Y0(o) + j - 1) > d THEN "0"
                     ELSE Sum([i \in 1..o.nx |-> IF AbsI(X0(o) + i - 1) > d THEN "0" ELSE o.px[j][i]])])
      enough(d) == LET v == in(d) IN IF Lt(want, "0") THEN Le(v, want) ELSE Le(want, v)
      ds == {d \in 0..MinI(lim, MaxI(o.nx, o.ny)) : enough(d)} IN
  IF o.smode = "F" THEN Sub(Half(N(MaxI(o.nx, o.ny))), "0.5")
  ELSE IF ds = {} THEN Add(N(lim), "0.5")
  ELSE Add(N(CHOOSE d \in ds : \A e \in ds : d <= e), "0.5")
StepK2(o) == LET r == HalfSize(o) x == XRange(o.xk) IN Div(Div(Pi, Sqrt(Add(Sq(r), Sq(x)))), Spread(o.jac)[2])
\* the first of five rings of modes without any above the threshold
MaxK2(o) ==
  IF o.kmode = "F" THEN Div(KRange(o.xk), Spread(o.jac)[1])
  ELSE
    LET n == o.modes h == n \div 2 dk == Div(TwoPi, N(n))
        e(m, x0, len) == [i \in 1..len |-> Wave(NNeg(Mul(dk, N(m * (x0 + i - 1)))))]
        row(m) == LET w == TLCEval(e(m, X0(o), o.nx)) IN [j \in 1..o.ny |-> CSum([i \in 1..o.nx |-> CScale(o.px[j][i], w[i])])]
        wy == TLCEval([m \in (0 - h)..(h - 1) |-> e(m, Y0(o), o.ny)])
        thr == Sq(Mul(o.gs.maxk, PixSum(o)))
        rows == TLCEval([m \in 0..h |-> row(m)])
        v(a, b) == LET z == CSum([j \in 1..o.ny |-> CMul(wy[b][j], rows[a][j])]) IN Add(Sq(z[1]), Sq(z[2]))
        ring(d) == {c \in (0..d) \X ((0 - d)..d) : (c[1] = d \/ AbsI(c[2]) = d) /\ c[2] <= h - 1}
        loud == TLCEval([d \in 0..h |-> d > 0 /\ \E c \in ring(d) : Lt(thr, v(c[1], c[2]))])
        calm == {d \in 0..h : \A e2 \in d..MinI(d + 4, h) : ~loud[e2]}
        k == IF calm = {} THEN Mul(N(h + 1), dk) ELSE Mul(N(CHOOSE d \in calm : \A x \in calm : d <= x), dk) IN
    Div(Min2(k, IF o.kmode = "T" THEN KRange(o.xk) ELSE o.kmode), Spread(o.jac)[1])
=============================================================================
