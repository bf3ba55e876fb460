------------------------------- MODULE InterpMC -------------------------------
(***************************************************************************)
(* The kernels and the interpolated image, checked on themselves: every    *)
(* claim below connects two independent definitions of Interp.tla.         *)
(***************************************************************************)
EXTENDS Interp
CONSTANTS Orders, Steps, Sizes
VARIABLES K, i, o

Ker(name, n, dc) == Kernel(name, n, dc, "1e-5", "1")
Kernels == {Ker(x, 0, FALSE) : x \in {"Nearest", "Linear", "Cubic", "Quintic"}} \cup {Ker("Lanczos", n, d) : n \in Orders, d \in {TRUE, FALSE}}
None == [t |-> "none"]
G == [fold |-> "0.005", maxk |-> "0.001", kva |-> "1e-5", ts |-> "1"]
Px(n, a) == [j \in 1..n |-> [k \in 1..n |-> N((7 * j + 3 * k * k + a) % 5)]]
II(k, n, jac, off, pad) == [t |-> "ii", px |-> Px(n, 1), nx |-> n, ny |-> n, off |-> off, jac |-> jac, amp |-> "2", xk |-> k, kk |-> Ker("Quintic", 0, FALSE),
                            modes |-> Modes(n, n, pad), gs |-> G, smode |-> "T", kmode |-> "T"]
Jacs == {<<"1", "0", "0", "1">>, <<"0.5", "0.2", "-0.1", "0.7">>, <<"-1.2", "0", "0.3", "0.9">>}
Init == i = 0 /\ \/ K \in Kernels /\ o = None
                 \/ K = None /\ o \in {II(Ker(x[1], x[2], TRUE), n, j, f, p) : x \in {<<"Linear", 0>>, <<"Quintic", 0>>, <<"Lanczos", 3>>}, n \in Sizes, j \in Jacs,
                                       f \in {<<"0", "0">>, <<"-0.5", "0.3">>}, p \in {"1", "4"}}
Next == i < Steps /\ i' = i + 1 /\ UNCHANGED <<K, o>>
\* where each state looks
X(j) == Mul(Sub(N(j), Half(N(Steps))), "0.37")
Is == K # None
Tol(a, b, t) == Close(a, b, "0", t)

\* a kernel is one on its own pixel and zero on every other
Nodes == Is => Tol(XVal(K, N(i)), IF i = 0 THEN "1" ELSE "0", "1e-14")
Even == Is => NEq(XVal(K, X(i)), XVal(K, NNeg(X(i)))) /\ Tol(KVal(K, X(i)), KVal(K, NNeg(X(i))), "1e-12")
Compact == Is => (Lt(XRange(K), Abs(X(i))) => NEq(XVal(K, X(i)), "0"))
\* a constant image stays constant (Lanczos: only when it conserves the mean, and then nearly)
Ones(x) == Sum([j \in 1..(2 * I(Ceil(XRange(K))) + 3) |-> XVal(K, Sub(x, N(j - I(Ceil(XRange(K))) - 2)))])
Constant == Is => ((K.name # "Lanczos" \/ K.dc) /\ ~(K.name = "Nearest" /\ IsInt(Mul("2", X(i)))) =>
              Tol(Ones(Fmod(X(i), "1")), "1", IF K.name = "Lanczos" THEN (IF K.n = 1 THEN "2e-4" ELSE "2e-5") ELSE "1e-12"))
\* so is a straight line, to the order of the polynomial kernels
Slope(x) == Sum([j \in 1..9 |-> Mul(N(j - 5), XVal(K, Sub(x, N(j - 5))))])
Line == Is => (K.name \in {"Linear", "Cubic", "Quintic"} => LET x == Fmod(X(i), "1") IN Tol(Slope(x), x, "1e-12"))
\* the transform given in closed form is the transform of the kernel
Half0(k) == LET F(x) == Mul(XVal(K, x), Cos(Mul(k, x))) IN
  Sum([j \in 1..(4 * I(Ceil(XRange(K)))) |-> Quad(F, Div(N(j - 1), "4"), Div(N(j), "4"))])
Pair == Is => LET k == Mul("2.1", X(i)) f == Half0(k) IN
  Tol(Mul("2", f), IF K.name = "Nearest" THEN Mul("1", KVal(K, k)) ELSE KVal(K, k), IF K.name = "Lanczos" /\ K.dc THEN (IF K.n = 1 THEN "3e-3" ELSE "2e-5") ELSE "1e-10")
\* its parts add up
Whole == Is => LET p == Parts(K) IN
  /\ Tol(Sub(p[1], p[2]), "1", "1e-9")
  /\ (i = 0 /\ K.name # "Lanczos") => Tol(Add(Unit(K, 0), Mul("2", Sum([j \in 1..(Units(K) - 1) |-> Unit(K, j)]))), "1", "1e-9")
  /\ (i = 0 /\ K.name = "Lanczos" /\ ~K.dc) => Tol(Add(Unit(K, 0), Mul("2", Sum([j \in 1..(Units(K) - 1) |-> Unit(K, j)]))), KVal(K, "0"), "1e-9")
\* images
Im == o # None
P(j) == <<Mul("0.8", X(j)), Mul("-0.55", X(j + 1))>>
KP(j) == <<Mul("0.5", X(j)), Mul("0.9", X(2 * j))>>
\* each pixel's own place carries its own value
Where(a, b) == MV(o.jac, <<Sub(N(X0(o) + a - 1), o.off[1]), Sub(N(Y0(o) + b - 1), o.off[2])>>)
Through == Im => LET a == (i % o.nx) + 1 b == (i % o.ny) + 1 IN Tol(XVal2(o, Where(a, b)), Mul(o.amp, o.px[b][a]), "1e-9")
\* the flux is the transform at zero, and transforms of real functions are Hermitian
Zero == Im => LET z == KVal2(o, <<"0", "0">>) IN Tol(z[1], Flux2(o), IF o.xk.name = "Lanczos" THEN "1e-3" ELSE "1e-9") /\ Tol(z[2], "0", "1e-9")
Hermitian == Im => LET k == KP(i) u == KVal2(o, k) v == KVal2(o, <<NNeg(k[1]), NNeg(k[2])>>) IN Tol(u[1], v[1], "1e-9") /\ Tol(u[2], NNeg(v[2]), "1e-9")
\* at the modes themselves the interpolation in frequency is exact
Mode(a, b) == LET dk == Div(TwoPi, N(o.modes)) IN MT(Inv(o.jac), <<Mul(N(a), dk), Mul(N(b), dk)>>)
AtModes == Im => LET k == Mode(i - (Steps \div 2), (i % 3) - 1) u == KVal2(o, k) v == KTrue2(o, k) IN Tol(u[1], v[1], "1e-8") /\ Tol(u[2], v[2], "1e-8")
\* and between them the more padding the better
Padded == Im /\ o.modes >= 4 * o.nx => LET u == KVal2(o, KP(i)) v == KTrue2(o, KP(i)) IN Tol(u[1], v[1], Mul("0.004", Flux2(o))) /\ Tol(u[2], v[2], Mul("0.004", Flux2(o)))
\* parts by sign, the centre of an even image, the extent
Signs == Im => LET p == PosNeg2(o) IN Tol(Sub(p[1], p[2]), Flux2(o), "1e-7") /\ Le("0", p[2])
Extent == Im => LET s == StepK2(o) IN Lt("0", s) /\ Le(s, Div(Div(Pi, XRange(o.xk)), Spread(o.jac)[2]))
Band == Im => LET m == MaxK2(o) IN Lt("0", m) /\ Le(Mul(m, Spread(o.jac)[1]), Add(Pi, Mul("1.01", Div(TwoPi, N(o.modes)))))
Once == i = 0 => Whole /\ Zero /\ Signs /\ Extent /\ Band
=============================================================================
