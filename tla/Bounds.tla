------------------------------- MODULE Bounds -------------------------------
(***************************************************************************)
(* Rectangles and positions: a heap of immutable values built by a history *)
(* of constructor / operator calls.                                        *)
(*   position: [t |-> "PI"|"PD", x, y]                                     *)
(*   bounds  : [t |-> "BI"|"BD", def |-> BOOLEAN, x0, x1, y0, y1]          *)
(*             "BI" is the set of pixels x0..x1 \X y0..y1 (inclusive),     *)
(*             "BD" the closed rectangle; def = FALSE is the empty one.    *)
(*   [t |-> "LAX"]: the documentation leaves the value open.               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, Num

Lax == [t |-> "LAX"]
Bad(kind) == [t |-> "ERR", e |-> kind]

Pos(t, x, y) == [t |-> t, x |-> x, y |-> y]
Undef(t) == [t |-> t, def |-> FALSE, x0 |-> "0", x1 |-> "0", y0 |-> "0", y1 |-> "0"]
Rect(t, a, b, c, d) ==
  IF Lt(b, a) \/ Lt(d, c) THEN Undef(t)
  ELSE [t |-> t, def |-> TRUE, x0 |-> a, x1 |-> b, y0 |-> c, y1 |-> d]

AllInt(s) == \A i \in 1..Len(s) : IsInt(s[i])

\* 4-argument constructor.  Integer bounds reject non-integral corners.
Make(t, a, b, c, d) ==
  IF t = "BI" /\ ~AllInt(<<a, b, c, d>>) THEN Bad("TypeError")
  ELSE Rect(t, a, b, c, d)

\* (xmin, width in pixels or length, ymin, height)
MakeDelta(t, a, w, c, h) ==
  IF t = "BI" THEN IF ~AllInt(<<a, w, c, h>>) THEN Bad("TypeError")
                   ELSE Rect(t, a, Sub(Add(a, w), "1"), c, Sub(Add(c, h), "1"))
  ELSE Rect(t, a, Add(a, w), c, Add(c, h))

FromPos(t, p) == Make(t, p.x, p.x, p.y, p.y)
FromPos2(t, p, q) ==
  Make(t, Min2(p.x, q.x), Max2(p.x, q.x), Min2(p.y, q.y), Max2(p.y, q.y))
Convert(t, b) == IF b.def THEN Make(t, b.x0, b.x1, b.y0, b.y1) ELSE Lax

PosOf(t) == IF t = "BI" THEN "PI" ELSE "PD"

Union(b, c) ==
  IF c.t \in {"BI", "BD"} /\ c.t = b.t THEN
    IF ~c.def THEN b ELSE IF ~b.def THEN c
    ELSE Rect(b.t, Min2(b.x0, c.x0), Max2(b.x1, c.x1), Min2(b.y0, c.y0), Max2(b.y1, c.y1))
  ELSE IF c.t = PosOf(b.t) THEN
    IF ~b.def THEN FromPos(b.t, c)
    ELSE Rect(b.t, Min2(b.x0, c.x), Max2(b.x1, c.x), Min2(b.y0, c.y), Max2(b.y1, c.y))
  ELSE Bad("TypeError")

Inter(b, c) ==
  IF c.t # b.t THEN Bad("TypeError")
  ELSE IF ~b.def \/ ~c.def THEN Undef(b.t)
  ELSE Rect(b.t, Max2(b.x0, c.x0), Min2(b.x1, c.x1), Max2(b.y0, c.y0), Min2(b.y1, c.y1))

Shift(b, p) ==
  IF p.t # PosOf(b.t) THEN Bad("TypeError")
  ELSE IF ~b.def THEN Lax       \* likewise shifting one
  ELSE Rect(b.t, Add(b.x0, p.x), Add(b.x1, p.x), Add(b.y0, p.y), Add(b.y1, p.y))

WithBorder(b, dx, dy) ==
  IF b.t = "BI" /\ ~AllInt(<<dx, dy>>) THEN Bad("TypeError")
  ELSE IF ~b.def THEN Lax       \* a border on an empty rectangle is not specified
  ELSE Rect(b.t, Sub(b.x0, dx), Add(b.x1, dx), Sub(b.y0, dy), Add(b.y1, dy))

\* scale about the centre; integer bounds grow to whole pixels (round up)
ExpandAmt(b, w, f) ==
  LET d == Mul(Mul(w, "0.5"), Sub(f, "1")) IN IF b.t = "BI" THEN Ceil(d) ELSE d
Expand(b, fx, fy) ==
  IF ~b.def THEN Lax
  ELSE WithBorder(b, ExpandAmt(b, Sub(b.x1, b.x0), fx), ExpandAmt(b, Sub(b.y1, b.y0), fy))

\* centre pixel: just up and to the right of the true centre when even
Center(b) ==
  IF ~b.def THEN Bad("GalSimUndefinedBoundsError")
  ELSE IF b.t = "BI" THEN
    Pos("PI", Floor(Half(Add(Add(b.x0, b.x1), "1"))), Floor(Half(Add(Add(b.y0, b.y1), "1"))))
  ELSE Pos("PD", Half(Add(b.x0, b.x1)), Half(Add(b.y0, b.y1)))
TrueCenter(b) ==
  IF ~b.def THEN Bad("GalSimUndefinedBoundsError")
  ELSE Pos("PD", Half(Add(b.x0, b.x1)), Half(Add(b.y0, b.y1)))
Origin(b) == IF b.def THEN Pos(PosOf(b.t), b.x0, b.y0) ELSE Lax

Area(b) ==
  IF ~b.def THEN "0"
  ELSE IF b.t = "BI" THEN Mul(Add(Sub(b.x1, b.x0), "1"), Add(Sub(b.y1, b.y0), "1"))
  ELSE Mul(Sub(b.x1, b.x0), Sub(b.y1, b.y0))

IncludesXY(b, x, y) == b.def /\ Le(b.x0, x) /\ Le(x, b.x1) /\ Le(b.y0, y) /\ Le(y, b.y1)
IncludesB(b, c) ==
  b.def /\ c.def /\ Le(b.x0, c.x0) /\ Le(c.x1, b.x1) /\ Le(b.y0, c.y0) /\ Le(c.y1, b.y1)

SameB(b, c) ==
  /\ b.t = c.t /\ b.def = c.def
  /\ b.def => NEq(b.x0, c.x0) /\ NEq(b.x1, c.x1) /\ NEq(b.y0, c.y0) /\ NEq(b.y1, c.y1)
SameP(p, q) == p.t = q.t /\ NEq(p.x, q.x) /\ NEq(p.y, q.y)
Same(a, b) == IF a.t \in {"PI", "PD"} /\ b.t \in {"PI", "PD"} THEN SameP(a, b)
              ELSE IF a.t \in {"BI", "BD"} /\ b.t \in {"BI", "BD"} THEN SameB(a, b)
              ELSE FALSE

\* positions
IsP(v) == v.t \in {"PI", "PD"}
PJoin(p, q) == IF p.t = q.t THEN p.t ELSE "PD"
PAdd(p, q) == IF IsP(q) THEN Pos(PJoin(p, q), Add(p.x, q.x), Add(p.y, q.y)) ELSE Bad("TypeError")
PSub(p, q) == IF IsP(q) THEN Pos(PJoin(p, q), Sub(p.x, q.x), Sub(p.y, q.y)) ELSE Bad("TypeError")
PNeg(p) == Pos(p.t, NNeg(p.x), NNeg(p.y))
PMul(p, a) == IF p.t = "PI" /\ ~IsInt(a) THEN Bad("TypeError") ELSE Pos(p.t, Mul(p.x, a), Mul(p.y, a))
PRound(p) == Pos("PI", Rint(p.x), Rint(p.y))

TF(b) == IF b THEN "T" ELSE "F"
Proj(v) ==
  CASE v.t \in {"PI", "PD"} -> <<v.t, v.x, v.y>>
    [] v.t \in {"BI", "BD"} ->
         IF v.def THEN <<v.t, "T", v.x0, v.x1, v.y0, v.y1, Area(v)>> ELSE IF v.t = "BI" THEN <<v.t, "F", "0">> ELSE <<v.t, "F">>
    [] OTHER -> <<>>

\* One call.  op = name, a/b = operand values, n = numeric literals.
Apply(op, a, b, n) ==
  CASE op = "make"   -> Make(a.t, n[1], n[2], n[3], n[4])
    [] op = "makekw" -> Make(a.t, n[1], n[2], n[3], n[4])
    [] op = "delta"  -> MakeDelta(a.t, n[1], n[2], n[3], n[4])
    [] op = "empty"  -> Undef(a.t)
    [] op = "pos"    -> IF a.t = "PI" /\ ~AllInt(n) THEN Bad("TypeError") ELSE Pos(a.t, n[1], n[2])
    [] op = "frompos" -> FromPos(b.t, a)
    [] op = "convI"  -> Convert("BI", a)
    [] op = "convD"  -> Convert("BD", a)
    [] op = "union"  -> Union(a, b)
    [] op = "inter"  -> Inter(a, b)
    [] op = "shift"  -> Shift(a, b)
    [] op = "border" -> WithBorder(a, n[1], n[2])
    [] op = "border1" -> WithBorder(a, n[1], n[1])
    [] op = "expand" -> Expand(a, n[1], n[2])
    [] op = "expand1" -> Expand(a, n[1], n[1])
    [] op = "center" -> Center(a)
    [] op = "truecenter" -> TrueCenter(a)
    [] op = "origin" -> Origin(a)
    [] op = "padd"   -> PAdd(a, b)
    [] op = "psub"   -> PSub(a, b)
    [] op = "pneg"   -> PNeg(a)
    [] op = "pmul"   -> PMul(a, n[1])
    [] op = "pround" -> PRound(a)
    [] op = "id"     -> a       \* copy, pickle, repr-eval, pytree, reference round trip
    [] OTHER -> Bad("unknown-op")

\* Queries answer with a sequence of strings.
Query(op, a, b, n) ==
  CASE op = "q_incxy" -> <<TF(IncludesXY(a, n[1], n[2]))>>
    [] op = "q_incpos" -> <<TF(IncludesXY(a, b.x, b.y))>>
    [] op = "q_incb"  -> <<TF(IncludesB(a, b))>>
    [] op = "q_eq"    -> <<TF(Same(a, b)), TF(~Same(a, b)), IF Same(a, b) THEN "hash-equal" ELSE "-">>
    [] op = "q_shape" -> IF a.def THEN <<Add(Sub(a.y1, a.y0), "1"), Add(Sub(a.x1, a.x0), "1")>>
                         ELSE <<"0", "0">>
    [] op = "q_again" -> Proj(a)   \* an old value looks as it did when created
=============================================================================
