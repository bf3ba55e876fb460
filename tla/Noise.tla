-------------------------------- MODULE Noise --------------------------------
(***************************************************************************)
(* Noise models.  A noise is a distribution for each pixel (given the value *)
(* the pixel has) plus a random stream that it shares with the generator it *)
(* was made from.  Applying it reads the stream, one value per pixel in row *)
(* order, and moves it.  State:                                             *)
(*   rng : the generators and streams of RNGSpec                            *)
(*   ns  : noises [k, h, p, dk, dp]  (kind, handle, parameters; for "Dev"   *)
(*         the kind and parameters of the deviate)                          *)
(*   ims : images [dt, nx, px, const]                                       *)
(***************************************************************************)
EXTENDS RNGSpec

NKinds == {"Gauss", "Poisson", "CCD", "Dev", "Var"}
NInit == [rng |-> Init0, ns |-> <<>>, ims |-> <<>>]
Noise(k, h, p, dk, dp) == [k |-> k, h |-> h, p |-> p, dk |-> dk, dp |-> dp]
NPix(im) == Len(im.px)
\* parameters: Gauss <<sigma>>; Poisson <<sky>>; CCD <<sky, gain, read noise>>; Var <<a variance per pixel>>
Sky(n) == IF n.k \in {"Poisson", "CCD"} THEN n.p[1] ELSE "0"
Pos(x) == Lt("0", x)
Clip(x) == IF Lt(x, "0") THEN "0" ELSE x

\* the photons expected in a pixel of value o
Expect(n, o) == IF n.k = "CCD" THEN Clip(Mul(Add(o, n.p[1]), n.p[2])) ELSE Clip(Add(o, n.p[1]))
Shot(n) == n.k = "Poisson" \/ (n.k = "CCD" /\ Pos(n.p[2]))
Read(n) == n.k = "CCD" /\ Pos(n.p[3])
Gain(n) == IF n.k = "CCD" THEN n.p[2] ELSE "1"
ReadSigma(n) == IF Pos(n.p[2]) THEN Div(n.p[3], n.p[2]) ELSE n.p[3]

\* how far applying it to m pixels moves the stream
Reads(n, m) == CASE n.k = "CCD" -> (IF Shot(n) THEN m ELSE 0) + (IF Read(n) THEN m ELSE 0)
                 [] OTHER -> m
\* the values of the stream that decide pixel q (1-based) of m
ShotVal(n, c, o, q) == Val("Po", <<Expect(n, o)>>, c, q - 1)
ReadVal(n, c, q, m) == Val("G", <<"0", ReadSigma(n)>>, c, (IF Shot(n) THEN m ELSE 0) + q - 1)
AddVal(n, c, q) == CASE n.k = "Gauss" -> Val("G", <<"0", n.p[1]>>, c, q - 1)
                     [] n.k = "Var" -> [Val("G", <<"0", "1">>, c, q - 1) EXCEPT !.a = Sqrt(n.p[q])]
                     [] OTHER -> Val(n.dk, n.dp, c, q - 1)
PixVals(n, c, o, q, m) ==
  IF n.k \in {"Poisson", "CCD"}
  THEN (IF Shot(n) THEN <<ShotVal(n, c, o, q)>> ELSE <<>>) \o (IF Read(n) THEN <<ReadVal(n, c, q, m)>> ELSE <<>>)
  ELSE <<AddVal(n, c, q)>>

\* mean and variance of what is added to a pixel of value o
AddMean(n, o, q) ==
  CASE n.k \in {"Gauss", "Var"} -> "0"
    [] n.k = "Dev" -> Mean(n.dk, n.dp)
    [] Shot(n) -> Sub(Sub(Div(Expect(n, o), Gain(n)), Sky(n)), o)
    [] OTHER -> "0"
AddVar(n, o, q) ==
  CASE n.k = "Gauss" -> Mul(n.p[1], n.p[1])
    [] n.k = "Var" -> n.p[q]
    [] n.k = "Dev" -> Var(n.dk, n.dp)
    [] OTHER -> Add(IF Shot(n) THEN Div(Expect(n, o), Mul(Gain(n), Gain(n))) ELSE "0",
                    IF Read(n) THEN Mul(ReadSigma(n), ReadSigma(n)) ELSE "0")
AddKurt(n, o) == CASE n.k = "Dev" -> Kurt(n.dk, n.dp)
                   [] n.k \in {"Gauss", "Var"} -> "3"
                   [] OTHER -> IF Shot(n) /\ Pos(Expect(n, o)) THEN Add("3", Div("1", Expect(n, o))) ELSE "3"

\* the one number called the variance of a noise: that of a pixel of value zero
HasVar(n) == n.k \in {"Gauss", "Poisson", "CCD"}
Variance(n) ==
  CASE n.k = "Gauss" -> Mul(n.p[1], n.p[1])
    [] n.k = "Poisson" -> n.p[1]
    [] n.k = "CCD" -> IF Pos(n.p[2]) THEN Add(Div(n.p[1], n.p[2]), Mul(Div(n.p[3], n.p[2]), Div(n.p[3], n.p[2])))
                      ELSE Mul(n.p[3], n.p[3])
Scaled(n, f) == [n EXCEPT !.p = CASE n.k = "Gauss" -> <<Mul(@[1], Sqrt(f))>>
                                  [] n.k = "Poisson" -> <<Mul(@[1], f)>>
                                  [] n.k = "CCD" -> <<Mul(@[1], f), @[2], Mul(@[3], Sqrt(f))>>]
WithVar(n, v) == [n EXCEPT !.p = CASE n.k = "Gauss" -> <<Sqrt(v)>>
                                   [] n.k = "Poisson" -> <<v>>
                                   [] n.k = "CCD" -> IF Pos(Variance(n)) THEN Scaled(n, Div(v, Variance(n))).p
                                                     ELSE <<v, "1", "0">>]

\* a noise, on the stream of an existing generator or on a new stream
AddNoise(s, n, c) == [s EXCEPT !.rng = AddLinked(@, "B", <<>>, c), !.ns = Append(@, [n EXCEPT !.h = Len(s.rng.hs) + 1])]
AddNoiseNew(s, n, cell) == [s EXCEPT !.rng = AddNew(@, "B", <<>>, cell), !.ns = Append(@, [n EXCEPT !.h = Len(s.rng.hs) + 1])]
NCell(s, a) == CellOf(s.rng, s.ns[a].h)
NC(s, a) == s.rng.hs[s.ns[a].h].c
Advance(s, a, m) == [s EXCEPT !.rng = Move(@, s.ns[a].h, m)]
NSame(s, a, b) ==
  /\ s.ns[a].k = s.ns[b].k /\ Len(s.ns[a].p) = Len(s.ns[b].p)
  /\ \A q \in 1..Len(s.ns[a].p) : NEq(s.ns[a].p[q], s.ns[b].p[q])
  /\ NCell(s, a) = NCell(s, b)
  /\ (s.ns[a].k = "Dev" => /\ s.ns[a].dk = s.ns[b].dk /\ Len(s.ns[a].dp) = Len(s.ns[b].dp)
                           /\ \A q \in 1..Len(s.ns[a].dp) : NEq(s.ns[a].dp[q], s.ns[b].dp[q]))
=============================================================================
