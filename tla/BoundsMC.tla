------------------------------ MODULE BoundsMC ------------------------------
(***************************************************************************)
(* Exhaustive small-scope check of the algebraic laws of Bounds, and the   *)
(* generator of one implementation test per (operation, operands) pair.    *)
(***************************************************************************)
EXTENDS Bounds, TLC, Json, FiniteSets
CONSTANTS Lo, Hi
Grid == {N(i) : i \in Lo..Hi}
Rects(t) == {Rect(t, a, b, c, d) : a \in Grid, b \in Grid, c \in Grid, d \in Grid}
Poss(t) == {Pos(t, x, y) : x \in Grid, y \in Grid}
VARIABLES b, c, p
vars == <<b, c, p>>
Init == \E t \in {"BI", "BD"} : b \in Rects(t) /\ c \in Rects(t) /\ p \in Poss(PosOf(t))
Next == UNCHANGED vars

SetOf(r) == {q \in Poss("PI") : IncludesXY(r, q.x, q.y)}
\* the integer rectangle IS the set of its points
UnionIsHull ==
  /\ SetOf(b) \cup SetOf(c) \subseteq SetOf(Union(b, c))
  /\ SameB(Union(b, c), Union(c, b)) /\ SameB(Union(b, b), b)
InterIsMeet ==
  /\ SetOf(Inter(b, c)) = SetOf(b) \cap SetOf(c)
  /\ SameB(Inter(b, c), Inter(c, b)) /\ SameB(Inter(b, b), b)
Absorb == SameB(Union(b, Inter(b, c)), b) /\ SameB(Inter(b, Union(b, c)), b)
IncIsOrder == (IncludesB(b, c)) = (b.def /\ c.def /\ SameB(Union(b, c), b))
IncIsSubset == (b.def /\ c.def) => (IncludesB(b, c) = (SetOf(c) \subseteq SetOf(b)))
ShiftBack == b.def => SameB(Shift(Shift(b, p), PNeg(p)), b)
ShiftArea == b.def => NEq(Area(Shift(b, p)), Area(b))
AreaIsCard == b.t = "BI" => NEq(Area(b), N(Cardinality(SetOf(b))))
BorderBack == b.def => SameB(WithBorder(WithBorder(b, "2", "1"), "-2", "-1"), b)
CenterIn == b.def => IncludesXY(b, Center(b).x, Center(b).y)
CenterShift == b.def => SameP(Center(Shift(b, p)), PAdd(Center(b), p))
ExpandOne == b.def => SameB(Expand(b, "1", "1"), b)
ExpandGrows == b.def => IncludesB(Expand(b, "1.5", "3"), b)
PosUnion == SameB(Union(b, p), Union(b, FromPos(b.t, p)))
Inv == UnionIsHull /\ InterIsMeet /\ Absorb /\ IncIsOrder /\ IncIsSubset /\ ShiftBack /\ ShiftArea
       /\ AreaIsCard /\ BorderBack /\ CenterIn /\ CenterShift /\ ExpandOne /\ ExpandGrows /\ PosUnion
=============================================================================
