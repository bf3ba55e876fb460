------------------------------- MODULE NoiseMC -------------------------------
(* Small scope: up to MaxN noises on shared and separate streams, every       *)
(* interleaving of applying, copying and changing them.  used: the stream     *)
(* positions that have decided a pixel.                                       *)
EXTENDS Noise, FiniteSets
CONSTANTS Depth, MaxN
VARIABLES st, d, used
vars == <<st, d, used>>
Menu == {Noise("Gauss", 0, <<"2">>, "", <<>>), Noise("Poisson", 0, <<"3">>, "", <<>>),
         Noise("CCD", 0, <<"10", "2", "4">>, "", <<>>), Noise("CCD", 0, <<"10", "0", "4">>, "", <<>>),
         Noise("CCD", 0, <<"0", "2", "0">>, "", <<>>), Noise("Var", 0, <<"1", "4">>, "", <<>>),
         Noise("Dev", 0, <<>>, "U", <<>>)}
Levels == <<"0", "-20", "5">>
M == 2
Init == st = NInit /\ d = 0 /\ used = {}
Go(s) == st' = s /\ d' = d + 1
New == Len(st.ns) < MaxN /\ \E n \in Menu : \E s \in {"5", "6"} : Go(AddNoiseNew(st, n, Cell(s, 0))) /\ used' = used
Link == Len(st.ns) < MaxN /\ \E n \in Menu : \E a \in 1..Len(st.ns) : Go(AddNoise(st, n, NC(st, a))) /\ used' = used
Copy == Len(st.ns) < MaxN /\ \E a \in 1..Len(st.ns) : Go(AddNoise(st, st.ns[a], NC(st, a))) /\ used' = used
Dup == Len(st.ns) < MaxN /\ \E a \in 1..Len(st.ns) : Go(AddNoiseNew(st, st.ns[a], NCell(st, a))) /\ used' = used
Rescale == Len(st.ns) < MaxN /\ \E a \in 1..Len(st.ns) : HasVar(st.ns[a]) /\
  \E v \in {"4", "0.25"} : (Go(AddNoise(st, Scaled(st.ns[a], v), NC(st, a))) \/ Go(AddNoise(st, WithVar(st.ns[a], v), NC(st, a)))) /\ used' = used
\* stream positions read by applying noise a to M pixels
PosOf(n, c, q) == IF n.k \in {"Poisson", "CCD"} THEN (IF Shot(n) THEN {c.pos + q - 1} ELSE {}) \cup (IF Read(n) THEN {c.pos + (IF Shot(n) THEN M ELSE 0) + q - 1} ELSE {})
                  ELSE {c.pos + q - 1}
Apply == \E a \in 1..Len(st.ns) : LET n == st.ns[a] c == NCell(st, a) IN
  Go(Advance(st, a, Reads(n, M))) /\ used' = used \cup UNION {{<<NC(st, a), x>> : x \in PosOf(n, c, q)} : q \in 1..M}
Next == d < Depth /\ (New \/ Link \/ Copy \/ Dup \/ Rescale \/ Apply)
View == <<st, used>>

C(x, y) == Close(x, y, "1e-12", "1e-12")
\* every value of a stream decides at most one pixel, once
Fresh0 == \A x \in used : x[2] < st.rng.cells[x[1]].pos
\* an application reads disjoint positions for its pixels and its two parts, all of those it passes
Disjoint == \A a \in 1..Len(st.ns) : LET n == st.ns[a] c == NCell(st, a) IN
  UNION {PosOf(n, c, q) : q \in 1..M} = c.pos..(c.pos + Reads(n, M) - 1)
  /\ \A q \in 1..M : Cardinality(PosOf(n, c, q)) = Len(PixVals(n, c, "0", q, M))
\* the variance asked for is the variance of the noise in an empty pixel; changing it does what it says
Variances == \A a \in 1..Len(st.ns) : LET n == st.ns[a] IN HasVar(n) =>
  /\ C(Variance(n), AddVar(n, "0", 1))
  /\ \A v \in {"4", "0.25", "7"} : C(Variance(WithVar(n, v)), v) /\ C(Variance(Scaled(n, v)), Mul(v, Variance(n)))
  /\ C(Variance(Scaled(Scaled(n, "3"), Div("1", "3"))), Variance(n))
\* on pixels that are not clipped, shot noise has no bias and the variance grows with the pixel
Moments == \A a \in 1..Len(st.ns) : LET n == st.ns[a] IN \A i \in 1..Len(Levels) : LET o == Levels[i] IN
  /\ (n.k # "Dev" /\ Le("0", Add(o, Sky(n))) => C(AddMean(n, o, 1), "0"))
  /\ (Shot(n) /\ Le("0", o) => C(AddVar(n, o, 1), Add(Variance(n), Div(o, Gain(n)))))
  /\ Le("0", AddVar(n, o, 1))
Inv == Fresh0 /\ Disjoint /\ Variances /\ Moments
\* only the stream in use moves
Frame == [][\A c \in 1..Len(st.rng.cells) : st'.rng.cells[c] = st.rng.cells[c]
             \/ (st'.rng.cells[c].seed = st.rng.cells[c].seed /\ st'.rng.cells[c].pos > st.rng.cells[c].pos
                 /\ \A e \in 1..Len(st.rng.cells) : e # c => st'.rng.cells[e] = st.rng.cells[e])]_vars
=============================================================================
