-------------------------------- MODULE Shoot ---------------------------------
(***************************************************************************)
(* Photon shooting.  A profile is shot as N photons of equal size; how many *)
(* and how large follows from its flux, the options and one Poisson number;*)
(* where they fall follows the profile: the sum of flux * exp(-i k x) over  *)
(* the photons is the profile's transform, up to counting noise.           *)
(* Images here hold every pixel: [t |-> "img", b, dt, w, const, px].        *)
(***************************************************************************)
EXTENDS Draw

Positive(o) == ~Lt(o, "0")
(* what is shot with the sign of the flux, and what against it *)
RECURSIVE PN(_)
RECURSIVE PNConv(_, _)
PNConv(acc, s) == IF s = <<>> THEN acc
  ELSE LET q == PN(s[1]) IN PNConv(<<Add(Mul(acc[1], q[1]), Mul(acc[2], q[2])), Add(Mul(acc[1], q[2]), Mul(acc[2], q[1]))>>, SubSeq(s, 2, Len(s)))
PN(o) ==
  CASE o.t = "leaf" -> <<o.flux, "0">>
    [] o.t = "tr" -> LET q == PN(o.kids[1]) s == FluxScale(o) IN <<Mul(s, q[1]), Mul(s, q[2])>>
    [] o.t = "sum" -> LET q == [i \in 1..Len(o.kids) |-> PN(o.kids[i])] IN <<SumS([i \in 1..Len(q) |-> q[i][1]]), SumS([i \in 1..Len(q) |-> q[i][2]])>>
    [] o.t = "conv" -> PNConv(PN(o.kids[1]), SubSeq(o.kids, 2, Len(o.kids)))
    [] o.t = "deconv" -> <<Flux(o), "0">>
Size(o) == Add(PN(o)[1], PN(o)[2])                    \* total over all photons, signs aside
PerPhoton(o) == Sub("1", Mul("2", Div(PN(o)[2], Size(o))))  \* net flux of a photon of size one
RECURSIVE Shootable(_)
Shootable(o) == o.t # "deconv" /\ \A i \in 1..Len(o.kids) : Shootable(o.kids[i])
\* a sum with parts of both signs, or parts without any flux to divide among
RECURSIVE Mixed(_)
Mixed(o) == \/ (o.t = "sum" /\ (\E i, j \in 1..Len(o.kids) : Lt("0", Size(o.kids[i])) /\ Lt(Size(o.kids[j]), "0")))
            \/ \E i \in 1..Len(o.kids) : Mixed(o.kids[i])
RECURSIVE Void(_)
Void(o) == \/ Le(Abs(Size(o)), "1e-12")
           \/ (o.t = "sum" /\ (\E i \in 1..Len(o.kids) : Le(Abs(Size(o.kids[i])), "1e-12")))
           \/ \E i \in 1..Len(o.kids) : Void(o.kids[i])

(* ------------------------------- the budget ------------------------------ *)
Round(x) == Floor(Add(x, "0.5"))
Given(kw) == KHas(kw, "n_photons")
Poisson(kw) == IF KHas(kw, "poisson_flux") THEN KTrue(kw, "poisson_flux") ELSE ~Given(kw)
Gain(kw) == KGet(kw, "gain", "1")
\* fewer, larger photons when the image is noisy anyway (as in GalSim, the photons
\* of a profile already share all of its flux, and are made larger on top of that:
\* the flux asked for comes out this much too large; see the known findings)
Coarse(o, kw) == IF Given(kw) THEN "1" ELSE Add("1", Div(KGet(kw, "max_extra_noise", "0"), Abs(MaxSB(o))))
Mean(o) == Mul(Sq(PerPhoton(o)), Abs(Flux(o)))       \* of the Poisson number
\* photons and the size of each, for a profile of flux f whose photons of size one
\* bring e on average, each made c times larger, when the Poisson number made the flux r times what it was
Wanted(f, e, c, kw, r) == IF Given(kw) THEN KGet(kw, "n_photons", "0") ELSE Div(Mul(Div(Abs(f), Sq(e)), r), c)
Whole(z) == Round(z)
Share(size, c, gain, r, n) == Div(Mul(Mul(Div(size, n), r), c), gain)
Count(o, kw, r) == Whole(Wanted(Flux(o), PerPhoton(o), Coarse(o, kw), kw, r))
Each(o, kw, r, n) == Share(Size(o), Coarse(o, kw), Gain(kw), r, n)
(* ------------------- one batch after another (maxN) ---------------------- *)
\* photons are shot cap at a time, this many of them kept
Batch(left, cap) == IF left < cap THEN left ELSE cap
\* a batch is shot as cap photons carrying the whole flux; those kept are
\* brought up to it again, then down to their part of all
Kept(size, cap, this, n, g) == Mul(Mul(Mul(Div(size, N(cap)), Div(N(cap), N(this))), Div(N(this), N(n))), g)
(* ------------------------ sharing among components ----------------------- *)
\* the chance that a photon of a sum belongs to component i, and what it brings
Chance(sizes, i) == Div(Abs(sizes[i]), NSum([k \in 1..Len(sizes) |-> Abs(sizes[k])]))
Brings(sizes, i, n) == LET t == Div(NSum([k \in 1..Len(sizes) |-> Abs(sizes[k])]), n) IN IF Lt(sizes[i], "0") THEN NNeg(t) ELSE t
Ratio(o, v) == Div(Add(Sub(v, Mean(o)), Abs(Flux(o))), Abs(Flux(o)))
Drawn(o, r) == Add(Sub(Mul(r, Abs(Flux(o))), Abs(Flux(o))), Mean(o))
\* a number a Poisson deviate could have given
Likely(o, v) == LET m == Mean(o) u == Rint(v) IN
  /\ Close(v, u, "2e-5", "1e-6") /\ Le("-1e-6", v) /\ Le(Abs(Sub(v, m)), Add("14", Mul("7", Sqrt(m))))

(* -------------------------------- deposits ------------------------------- *)
PixOf(x) == Floor(Add(x, "0.5"))
\* photons count from the centre pixel
Deposit(b, x, y, f) ==
  LET c == NCen(b) n == Len(x)
      in == [i \in 1..n |-> LET px == Add(PixOf(x[i]), c[1]) py == Add(PixOf(y[i]), c[2]) IN
               IF Le(N(b[1]), px) /\ Le(px, N(b[2])) /\ Le(N(b[3]), py) /\ Le(py, N(b[4])) THEN (I(py) - b[3]) * Width(b) + (I(px) - b[1]) + 1 ELSE 0] IN
  [px |-> [k \in 1..(Width(b) * Height(b)) |-> NSum([i \in 1..n |-> IF in[i] = k THEN f[i] ELSE "0"])],
   added |-> NSum([i \in 1..n |-> IF in[i] > 0 THEN f[i] ELSE "0"])]
Edgy(x) == \E i \in 1..Len(x) : LET g == Add(x[i], "0.5") IN Close(g, Rint(g), "0", "1e-9")

PRefusals(o, kw, wa, im) ==
  LET ok == SelectSeq(kw, LAMBDA p : p[1] \notin PhotOnly) IN
  Refusals(o, ok, "no_pixel", wa, im)
  \cup (IF KTrue(kw, "save_photons") /\ KHas(kw, "maxN") THEN {"GalSimIncompatibleValuesError"} ELSE {})
  \cup (IF ~Shootable(o) /\ ~KTrue(kw, "setup") THEN {"GalSimNotImplementedError"} ELSE {})
=============================================================================
