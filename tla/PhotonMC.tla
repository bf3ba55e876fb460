------------------------------- MODULE PhotonMC -------------------------------
(***************************************************************************)
(* Model checking of the photon specification.  Two arrays and an image go *)
(* through every short history of assigning, scaling, shifting, masking,   *)
(* copying ranges, convolving and depositing; a ledger keeps each deposit  *)
(* as the photons were at that moment.  What must come out:                 *)
(*  DepositLaw  a pixel holds its first value and the flux of exactly the  *)
(*              deposited photons inside its square, nothing lost or twice *)
(*  AddedLaw    what was reported as added is what the image gained         *)
(*  MaskLaw     masking divides the same flux among fewer photons           *)
(*  CopyLaw     copying changes the addressed slots and nothing else        *)
(*  ConvLaw     convolving adds positions; equal fluxes multiply in total   *)
(*  MakeLaw     photons made from an image put back give the image again    *)
(***************************************************************************)
EXTENDS Photon, TLC
CONSTANTS Depth, Big
VARIABLES p, q, im, ledger, rep, step, last

B == <<1, 2, 0, 1>>
Im0 == [t |-> "im", b |-> B, dt |-> "f8", sc |-> "1", px |-> <<"1", "-2.5", "0", "0.75">>]
N3 == 3
Base == [Blank(3, 3) EXCEPT !.x = <<"0.5", "1.5", "2.25">>, !.y = <<"-0.5", "1.49", "0.5">>, !.f = <<"2", "-1", "0.5">>]
Other == [Blank(3, 3) EXCEPT !.x = <<"0.25", "-0.75", "1">>, !.y = <<"1", "0", "0.5">>, !.f = <<"3", "3", "3">>,
             !.ch = [@ EXCEPT !["wavelength"] = <<"500", "600", "700">>]]
Idxs == {<<"all">>, <<"slice", "0", "2", "1">>, <<"slice", "0", "3", "2">>, <<"int", "-1">>, <<"at", "2", "0">>, <<"mask", "F", "T", "T">>}
Puts == { <<"x", <<"0.5", "2.5", "1">>>>, <<"y", <<"0.5">>>>, <<"flux", <<"1", "2", "-4">>>>, <<"flux", <<"1.5">>>>, <<"dxdz", <<"0.1", "0.2", "0.3">>>>, <<"time", <<"4">>>> }

Init == p = Base /\ q = Other /\ im = Im0 /\ ledger = <<>> /\ rep = "0" /\ step = 0 /\ last = [k |-> "", a |-> Base, b |-> Other, d |-> <<>>]
To(v, k, d) == p' = v /\ last' = [k |-> k, a |-> p, b |-> q, d |-> d] /\ UNCHANGED <<q, im, ledger, rep>>
Next ==
  /\ step < Depth /\ step' = step + 1
  /\ \/ \E w \in Puts : To(Put(p, w[1], w[2]), "put", w)
     \/ \E s \in {"2", "-0.5"} : To(ScaleF(p, s), "scalef", s)
     \/ To(ScaleP(p, "0.5"), "scalexy", "0.5")
     \/ \E d \in {<<"1", "0">>, <<"-0.5", "0.5">>} : To(ShiftP(p, d), "shift", d)
     \/ \E k \in 1..3 : To(SetKeep(p, k), "keep", k)
     \/ \E i1 \in Idxs, i2 \in Idxs, xy \in BOOLEAN, fl \in BOOLEAN, oth \in BOOLEAN :
          /\ (Big \/ i1 = i2 \/ oth) /\ (xy \/ fl \/ oth)
          /\ Len(Idx(i1, 3)) = Len(Idx(i2, 3)) /\ Kept(p) = 3 /\ Kept(q) = 3
          /\ To(CopyFrom(p, q, Idx(i1, 3), Idx(i2, 3), xy, fl, oth), "copy", <<i1, i2, xy, fl, oth>>)
     \/ /\ Kept(p) = Kept(q)
        /\ \E pm \in (IF Big THEN {<<1, 2, 3>>, <<3, 1, 2>>, <<2, 1, 3>>} ELSE {<<1, 2, 3>>, <<3, 1, 2>>}) :
             (Kept(p) = 3 \/ pm = <<1, 2, 3>>) /\ To(Convolve(p, q, pm), "conv", pm)
     \/ /\ p' = q /\ q' = p /\ last' = [k |-> "swap", a |-> p, b |-> q, d |-> <<>>] /\ UNCHANGED <<im, ledger, rep>>
     \/ LET r == AddTo(p, im) IN
        /\ im' = [im EXCEPT !.px = r.px] /\ rep' = Add(rep, r.added)
        /\ ledger' = ledger \o [i \in 1..3 |-> <<p.x[i], p.y[i], IF p.keep[i] THEN p.f[i] ELSE "0">>]
        /\ last' = [k |-> "add", a |-> p, b |-> q, d |-> <<>>] /\ UNCHANGED <<p, q>>

Eq9(a, b) == Close(a, b, "1e-11", "1e-11")
\* the square of pixel k of the image: half a pixel to each side, the lower edges included
InSquare(k, x, y) == LET cx == N(B[1] + ((k - 1) % 2)) cy == N(B[3] + ((k - 1) \div 2)) IN
  /\ Le(Sub(cx, "0.5"), x) /\ ~Le(Add(cx, "0.5"), x) /\ Le(Sub(cy, "0.5"), y) /\ ~Le(Add(cy, "0.5"), y)
DepositLaw == \A k \in 1..4 : Eq9(im.px[k], Add(Im0.px[k], NSum([i \in 1..Len(ledger) |-> IF InSquare(k, ledger[i][1], ledger[i][2]) THEN ledger[i][3] ELSE "0"])))
AddedLaw == Eq9(Sub(NSum(im.px), NSum(Im0.px)), rep)
MaskLaw ==
  last.k = "keep" =>
    /\ Kept(p) = last.d
    /\ \A i \in 1..3 : Eq9(Mul(p.f[i], N(Kept(p))), Mul(last.a.f[i], N(Kept(last.a))))
    /\ (\A i \in 1..3 : last.a.f[i] = last.a.f[1]) => Eq9(Total(p), Total(last.a))
    /\ p.x = last.a.x /\ p.y = last.a.y /\ p.ch = last.a.ch
    \* the photons that counted are the first to count again
    /\ \A i, j \in 1..3 : last.a.keep[i] /\ ~last.a.keep[j] /\ p.keep[j] => p.keep[i]
Chans3(r, i) == [c \in Chans |-> r.ch[c][i]]
CopyLaw ==
  last.k = "copy" =>
    LET s1 == Idx(last.d[1], 3) s2 == Idx(last.d[2], 3) IN
    /\ \A i \in 1..3 : (\A k \in 1..Len(s1) : s1[k] # i) =>
         p.x[i] = last.a.x[i] /\ p.y[i] = last.a.y[i] /\ p.f[i] = last.a.f[i] /\ Chans3(p, i) = Chans3(last.a, i)
    /\ \A k \in 1..Len(s1) :
         /\ (last.d[3] => p.x[s1[k]] = last.b.x[s2[k]] /\ p.y[s1[k]] = last.b.y[s2[k]])
         /\ (last.d[4] => p.f[s1[k]] = last.b.f[s2[k]])
         /\ (~last.d[3] => p.x[s1[k]] = last.a.x[s1[k]]) /\ (~last.d[4] => p.f[s1[k]] = last.a.f[s1[k]])
         /\ \A c \in Chans : p.ch[c][s1[k]] = IF last.d[5] /\ HasCh(last.b, c) THEN last.b.ch[c][s2[k]] ELSE last.a.ch[c][s1[k]]
ConvLaw ==
  last.k = "conv" =>
    /\ Eq9(NSum(p.x), Add(NSum(last.a.x), NSum(last.b.x))) /\ Eq9(NSum(p.y), Add(NSum(last.a.y), NSum(last.b.y)))
    /\ p.keep = last.a.keep
    /\ (\A i \in 1..3 : last.b.f[i] = last.b.f[1]) => Eq9(Total(p), Mul(Total(last.a), Total(last.b)))
    /\ \A c \in Chans : HasCh(last.a, c) \/ HasCh(last.b, c) <=> HasCh(p, c)
SwapLaw == last.k = "swap" => p = last.b /\ q = last.a
PutLaw == last.k = "put" => \A c \in Chans : (HasCh(p, c) <=> HasCh(last.a, c) \/ c = last.d[1] \/ Pair(c) = last.d[1])
ShiftLaw == \* moving photons by whole pixels is moving the image the other way
  step = 0 \/ last.k = "shift" =>
    LET r == AddTo(p, im) s == AddTo(ShiftP(p, <<"3", "-2">>), [im EXCEPT !.b = <<B[1] + 3, B[2] + 3, B[3] - 2, B[4] - 2>>]) IN r.px = s.px /\ Eq9(r.added, s.added)
Made(mx) ==
  LET s == Sources(im.px, mx, 1) n == Len(s) IN
  [Blank(n, n) EXCEPT !.x = [i \in 1..n |-> N(B[1] + ((s[i] - 1) % 2))], !.y = [i \in 1..n |-> N(B[3] + ((s[i] - 1) \div 2))],
     !.f = [i \in 1..n |-> Div(im.px[s[i]], N(Per(im.px[s[i]], mx)))]]
MakeLaw ==
  last.k = "add" \/ step = 0 => \A mx \in {"1", "0.7"} :
    LET m == Made(mx) r == AddTo(m, [im EXCEPT !.px = <<"0", "0", "0", "0">>]) IN
    /\ \A k \in 1..4 : Eq9(r.px[k], im.px[k])
    /\ \A i \in 1..Size(m) : Le(Abs(m.f[i]), Add(mx, "1e-12"))
\* the same history in one go: depositing twice is depositing the joined arrays
Shape == /\ Size(p) = 3 /\ Size(q) = 3 /\ Kept(p) \in 1..3 /\ Kept(q) \in 1..3
=============================================================================
