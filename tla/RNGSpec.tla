------------------------------- MODULE RNGSpec -------------------------------
(***************************************************************************)
(* Random streams.  A CELL is a stream position <<seed, pos>>; a HANDLE is  *)
(* a generator: distribution kind, parameters and the cell it reads.        *)
(* Several handles may share one cell (linked generators).                  *)
(* Every value delivered is named by a KEY: distribution | seed | position. *)
(* The specification says which key each call delivers, and with which      *)
(* scale and offset; the real values must be a FUNCTION of the key.         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, Num

Kinds == {"B", "U", "G", "Bi", "Po", "W", "Ga", "C"}
Init0 == [cells |-> <<>>, hs |-> <<>>]
Cell(s, n) == [seed |-> s, pos |-> n]
Has0(st, i) == i >= 1 /\ i <= Len(st.hs)
CellOf(st, i) == st.cells[st.hs[i].c]

\* a handle on a new cell / on an existing cell
AddNew(st, k, p, cell) ==
  [cells |-> Append(st.cells, cell), hs |-> Append(st.hs, [k |-> k, p |-> p, c |-> Len(st.cells) + 1])]
AddLinked(st, k, p, c) == [st EXCEPT !.hs = Append(@, [k |-> k, p |-> p, c |-> c])]
Move(st, i, n) == [st EXCEPT !.cells[st.hs[i].c].pos = @ + n]
Detach(st, i, cell) ==
  [st EXCEPT !.cells = Append(@, cell), !.hs[i].c = Len(st.cells) + 1]

\* parameters are accepted or refused at construction
BadParams(k, p) ==
  \/ k = "G" /\ Lt(p[2], "0")
  \/ k = "Po" /\ Lt(p[1], "0")

\* the key of the value delivered at a stream position, and its scale / offset
Key(k, p, cell, d) ==
  LET base == "|" \o cell.seed \o "|" \o N(cell.pos + d) IN
  CASE k = "U" -> "U" \o base
    [] k = "G" -> "G" \o base
    [] k = "Ga" -> "Ga:" \o p[1] \o base
    [] k = "Po" -> "Po:" \o p[1] \o base
    [] k = "C" -> "C:" \o p[1] \o base
    [] k = "Bi" -> "Bi:" \o p[1] \o ":" \o p[2] \o base
    [] k = "W" -> "W:" \o p[1] \o ":" \o p[2] \o base
    [] OTHER -> k \o base
Scale(k, p) == CASE k = "G" -> p[2] [] k = "Ga" -> p[2] [] OTHER -> "1"
Offset(k, p) == CASE k = "G" -> p[1] [] OTHER -> "0"
Val(k, p, cell, d) == [key |-> Key(k, p, cell, d), a |-> Scale(k, p), b |-> Offset(k, p), k |-> k]

Draws(k, p, cell, n) == [i \in 1..n |-> Val(k, p, cell, i - 1)]
None == <<>>
Out(st, vals, err) == [st |-> st, vals |-> vals, err |-> err]

(***************************************************************************)
(* One call.  ev = [op, h, g, n, s, k, p]: handle, other handle, count,     *)
(* seed text, kind, parameters (decimal texts).                             *)
(***************************************************************************)
Do(st, ev) ==
  LET i == ev.h c == CellOf(st, i) H == st.hs[i] IN
  CASE ev.op = "new" ->
         IF BadParams(ev.k, ev.p) THEN Out(st, None, "any")
         ELSE Out(AddNew(st, ev.k, ev.p, Cell(ev.s, 0)), None, "")
    [] ev.op = "newbad" -> Out(st, None, "TypeError")        \* a seed that is no integer
    [] ev.op = "newfrom" ->
         IF BadParams(ev.k, ev.p) THEN Out(st, None, "any")
         ELSE Out(AddLinked(st, ev.k, ev.p, st.hs[ev.g].c), None, "")
    [] ev.op = "fromser" ->                                  \* seeded with the serialised state
         Out(AddNew(st, ev.k, ev.p, CellOf(st, ev.g)), None, "")
    [] ev.op = "dup" -> Out(AddNew(st, H.k, H.p, c), None, "")
    [] ev.op \in {"draw", "drawjit", "drawtree"} ->
         IF H.k = "B" THEN Out(st, None, "any")
         ELSE LET v == Draws(H.k, H.p, c, 1) IN
              IF ev.op = "draw" THEN Out(Move(st, i, 1), v, "")
              ELSE IF ev.op = "drawjit" \* the returned generator is put back with reset
              THEN Out(Detach(st, i, Cell(c.seed, c.pos + 1)), v, "")
              ELSE Out(st, v, "")        \* drawn from a rebuilt copy, the original stays
    [] ev.op = "gen" -> IF H.k = "B" THEN Out(st, None, "any")
                        ELSE Out(Move(st, i, ev.n), Draws(H.k, H.p, c, ev.n), "")
    [] ev.op = "genjit" -> IF H.k = "B" THEN Out(st, None, "any")
                           ELSE Out(Detach(st, i, Cell(c.seed, c.pos + ev.n)), Draws(H.k, H.p, c, ev.n), "")
    [] ev.op = "addgen" -> IF H.k = "B" THEN Out(st, None, "any")
         ELSE Out(Move(st, i, Len(ev.p)),
                  [q \in 1..Len(ev.p) |-> LET v == Val(H.k, H.p, c, q - 1) IN [v EXCEPT !.b = Add(@, ev.p[q])]], "")
    [] ev.op = "genvar" ->        \* Gaussian with one variance per element
         Out(Move(st, i, Len(ev.p)),
             [q \in 1..Len(ev.p) |-> LET v == Val("G", H.p, c, q - 1) IN [v EXCEPT !.a = Sqrt(ev.p[q]), !.b = "0"]], "")
    [] ev.op = "genexp" ->        \* Poisson with one expectation per element
         IF \E q \in 1..Len(ev.p) : Lt(ev.p[q], "0") THEN Out(st, None, "any")
         ELSE Out(Move(st, i, Len(ev.p)), [q \in 1..Len(ev.p) |-> Val("Po", <<ev.p[q]>>, c, q - 1)], "")
    [] ev.op = "vdraw" ->         \* vmap over a stack of two generators of one kind
         Out(st, Draws(H.k, H.p, c, ev.n) \o Draws(st.hs[ev.g].k, st.hs[ev.g].p, CellOf(st, ev.g), ev.n), "")
    [] ev.op = "raw" -> Out(Move(st, i, 1), Draws("raw", <<>>, c, 1), "")
    [] ev.op = "discard" -> Out(Move(st, i, ev.n), None, "")
    [] ev.op = "clear" -> Out(st, None, "")
    [] ev.op = "seed" -> Out([st EXCEPT !.cells[H.c] = Cell(ev.s, 0)], None, "")
    [] ev.op = "seedbad" -> Out(st, None, "TypeError")
    [] ev.op = "resetseed" -> Out(Detach(st, i, Cell(ev.s, 0)), None, "")
    [] ev.op = "resetto" -> Out([st EXCEPT !.hs[i].c = st.hs[ev.g].c], None, "")
    [] ev.op = "resetbad" -> Out(st, None, "TypeError")
    [] ev.op = "permute" -> Out(Move(st, i, 1), None, "")
         \* given to something that draws an unspecified number of values (photons, noise): the stream,
         \* for every generator linked to it, goes on from a new place that depends only on where it was
    [] ev.op = "use" -> Out([st EXCEPT !.cells[H.c] = Cell(c.seed \o "~" \o N(c.pos) \o ev.how, 0)], None, "")
    [] OTHER -> Out(st, None, "")

Same(st, i, j) ==
  /\ st.hs[i].k = st.hs[j].k
  /\ CellOf(st, i) = CellOf(st, j)
  /\ Len(st.hs[i].p) = Len(st.hs[j].p)
  /\ \A q \in 1..Len(st.hs[i].p) : NEq(st.hs[i].p[q], st.hs[j].p[q])

(***************************************************************************)
(* The documented distributions: mean, variance, kurtosis, and where it has *)
(* a closed form the probability of a value <= t.                           *)
(***************************************************************************)
Gam(x) == Exp(LGamma(x))
WM(p, n) == Mul(Pow(p[2], n), Gam(Add("1", Div(n, p[1]))))     \* Weibull raw moments
Mean(k, p) ==
  CASE k = "U" -> "0.5" [] k = "G" -> p[1] [] k = "Po" -> p[1] [] k = "C" -> p[1]
    [] k = "Bi" -> Mul(p[1], p[2]) [] k = "Ga" -> Mul(p[1], p[2]) [] k = "W" -> WM(p, "1")
Var(k, p) ==
  CASE k = "U" -> Div("1", "12") [] k = "G" -> Mul(p[2], p[2]) [] k = "Po" -> p[1]
    [] k = "C" -> Mul("2", p[1]) [] k = "Bi" -> Mul(Mul(p[1], p[2]), Sub("1", p[2]))
    [] k = "Ga" -> Mul(p[1], Mul(p[2], p[2])) [] k = "W" -> Sub(WM(p, "2"), Mul(WM(p, "1"), WM(p, "1")))
Kurt(k, p) ==
  CASE k = "U" -> "1.8" [] k = "G" -> "3" [] k = "Po" -> Add("3", Div("1", p[1]))
    [] k = "C" -> Add("3", Div("12", p[1])) [] k = "Ga" -> Add("3", Div("6", p[1]))
    [] k = "Bi" -> LET q == Mul(p[2], Sub("1", p[2])) IN
                   Add("3", Div(Sub("1", Mul("6", q)), Mul(p[1], q)))
    [] k = "W" -> LET m == WM(p, "1") v == Var(k, p) m2 == WM(p, "2") m3 == WM(p, "3") m4 == WM(p, "4") IN
       Div(Sub(Add(Sub(m4, Mul("4", Mul(m, m3))), Mul("6", Mul(m2, Mul(m, m)))), Mul("3", Pow(m, "4"))), Mul(v, v))
Cdf(k, p, t) ==
  CASE k = "U" -> t
    [] k = "G" -> Mul("0.5", Add("1", Erf(Div(Sub(t, p[1]), Mul(p[2], Sqrt("2"))))))
    [] k = "W" -> Sub("1", Exp(NNeg(Pow(Div(t, p[2]), p[1]))))
    [] k = "Po" -> Exp(NNeg(p[1]))                          \* at 0
    [] k = "Bi" -> Pow(Sub("1", p[2]), p[1])                \* at 0
    [] k = "C" -> IF p[1] = "2.0" THEN Sub("1", Exp(NNeg(Half(t)))) ELSE "-"
    [] k = "Ga" -> IF p[1] = "1.0" THEN Sub("1", Exp(NNeg(Div(t, p[2])))) ELSE "-"
    [] OTHER -> "-"
\* values the distribution can take
InRange(k, v) ==
  CASE k = "U" -> Le("-1e-9", v) /\ Le(v, "1.000000001")
    [] k = "G" -> TRUE
    \* very large Poisson means may be drawn from the Gaussian limit
    [] k \in {"Po", "Bi", "raw"} -> Le("-1e-9", v) /\ (Close(v, Rint(v), "0", "1e-9") \/ (k = "Po" /\ Lt("100000", v)))
    [] OTHER -> Le("-1e-9", v)
Finite(v) == Lt(Abs(v), "1e300")

\* x is within z standard errors of m (se given)
Near(x, m, se, z) == Le(Abs(Sub(x, m)), Add(Mul(z, se), "1e-12"))
DistOK(k, p, n, o) ==    \* o = sample mean, sample variance, fraction <= t, t
  /\ Near(o[1], Mean(k, p), Sqrt(Div(Var(k, p), n)), "7")
  /\ Near(o[2], Var(k, p), Mul(Var(k, p), Sqrt(Div(Add("0.1", Sub(Kurt(k, p), "1")), n))), "8")
  /\ LET q == Cdf(k, p, o[4]) IN
     q = "-" \/ Near(o[3], q, Sqrt(Div(Add(Mul(q, Sub("1", q)), "1e-4"), n)), "7")
=============================================================================
