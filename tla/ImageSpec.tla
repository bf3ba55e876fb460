----------------------------- MODULE ImageSpec -----------------------------
(***************************************************************************)
(* The pixel-image state machine.  The state is a heap (sequence) of       *)
(* images and of arrays taken out of images; every public call is one      *)
(* transition of the heap.                                                 *)
(*                                                                         *)
(* image: [k |-> "im", dt, def, x0, y0, nx, ny, px, w, const]              *)
(*    dt   pixel type  US UI S I F D (u16 u32 i16 i32 f32 f64)             *)
(*    px   row-major sequence of pixel values (Num)                        *)
(*    x0,y0,nx,ny  TLA+ integers (lower-left pixel, size)                  *)
(*    w    <<>> or <<a,b,c,d,e,f, sx,sy, flag>>: the affine map given by   *)
(*         the user, u = a x + b y + e, v = c x + d y + f, and by how much *)
(*         the pixel coordinates were moved since (flag: ever moved)       *)
(* array: [k |-> "arr", px]      (an array read out of an image)           *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, Num

\* ---------------------------------------------------------------- pixel types
IntTypes == {"US", "UI", "S", "I"}
IsIntT(dt) == dt \in IntTypes
Bits(dt) == IF dt \in {"US", "S"} THEN 16 ELSE 32
Signed(dt) == dt \in {"S", "I"}

\* the machine representation of a real result in type dt
Repr(dt, x) == IF dt = "D" THEN x ELSE IF dt = "F" THEN F32(x) ELSE WrapInt(x, Bits(dt), Signed(dt))
\* storing a real number: integer images round to nearest (ties to even)
Cast(dt, x) == IF IsIntT(dt) THEN Repr(dt, Rint(x)) ELSE Repr(dt, x)
\* item assignment truncates like an array assignment does
CastTrunc(dt, x) == IF IsIntT(dt) THEN Repr(dt, Trunc(x)) ELSE Repr(dt, x)

\* result type of image (op) image
Promote(a, b) ==
  IF a = b THEN a
  ELSE IF "D" \in {a, b} THEN "D"
  ELSE IF "F" \in {a, b} THEN "F"
  ELSE IF {a, b} = {"US", "UI"} THEN "UI" ELSE "I"
\* result type of image (op) python scalar
PromoteS(a, st) == IF st = "int" THEN a ELSE IF a = "F" THEN "F" ELSE "D"
\* true division
DivType(a, b) ==
  IF "D" \in {a, b} THEN "D"
  ELSE IF {a, b} \in {{"UI", "S"}, {"UI", "I"}} THEN "D" ELSE "F"
DivTypeS(a, st) == IF a = "D" THEN "D" ELSE IF st = "int" THEN "F" ELSE IF a = "F" THEN "F" ELSE "D"

Arith(op, x, y) ==
  CASE op = "add" -> Add(x, y) [] op = "sub" -> Sub(x, y) [] op = "mul" -> Mul(x, y)
    [] op = "div" -> Div(x, y) [] op = "floordiv" -> Floor(Div(x, y)) [] op = "mod" -> Fmod(x, y)
    [] op = "pow" -> Pow(x, y) [] op = "and" -> And64(x, y) [] op = "or" -> Or64(x, y)
    [] op = "xor" -> Xor64(x, y)
IntOnly(op) == op \in {"floordiv", "mod", "and", "or", "xor"}

\* ---------------------------------------------------------------- images
Im(dt, x0, y0, nx, ny, px, w, const) ==
  [k |-> "im", dt |-> dt, def |-> TRUE, x0 |-> x0, y0 |-> y0, nx |-> nx, ny |-> ny,
   px |-> px, w |-> w, const |-> const]
Undefined(dt, w, const) ==
  [k |-> "im", dt |-> dt, def |-> FALSE, x0 |-> 0, y0 |-> 0, nx |-> 0, ny |-> 0,
   px |-> <<>>, w |-> w, const |-> const]

Idx(im, x, y) == (y - im.y0) * im.nx + (x - im.x0) + 1
In(im, x, y) == im.def /\ x >= im.x0 /\ x < im.x0 + im.nx /\ y >= im.y0 /\ y < im.y0 + im.ny
At(im, x, y) == im.px[Idx(im, x, y)]
MapPx(im, F(_)) == [i \in 1..Len(im.px) |-> F(im.px[i])]

\* moving pixel coordinates by (dx,dy) leaves every pixel at its world position
ShiftW(w, dx, dy) ==
  IF w = <<>> THEN <<>>
  ELSE [w EXCEPT ![7] = Add(@, N(dx)), ![8] = Add(@, N(dy)), ![9] = "1"]
WcsOf(w) == IF w = <<>> THEN <<>> ELSE w \o <<"0", "0", "0">>
WorldU(w, x, y) == Add(w[5], Add(Mul(w[1], Sub(x, w[7])), Mul(w[2], Sub(y, w[8]))))
WorldV(w, x, y) == Add(w[6], Add(Mul(w[3], Sub(x, w[7])), Mul(w[4], Sub(y, w[8]))))
Shifted(im, dx, dy) ==
  IF ~im.def THEN im   \* see Trace: shifting an undefined image is not specified
  ELSE [im EXCEPT !.x0 = @ + dx, !.y0 = @ + dy, !.w = ShiftW(@, dx, dy)]
CenX(im) == im.x0 + im.nx \div 2
CenY(im) == im.y0 + im.ny \div 2

\* new image whose pixel (i,j) (0-based column, row) is f(i,j)
Build(dt, x0, y0, nx, ny, f(_, _), w) ==
  Im(dt, x0, y0, nx, ny, [q \in 1..(nx * ny) |-> f(((q - 1) % nx), ((q - 1) \div nx))], w, FALSE)
P0(im, i, j) == im.px[j * im.nx + i + 1]
Geo(op, im) ==
  CASE op = "transpose" -> LET f(i, j) == P0(im, j, i) IN Build(im.dt, im.y0, im.x0, im.ny, im.nx, f, <<>>)
    [] op = "flip_lr" -> LET f(i, j) == P0(im, im.nx - 1 - i, j) IN Build(im.dt, im.x0, im.y0, im.nx, im.ny, f, <<>>)
    [] op = "flip_ud" -> LET f(i, j) == P0(im, i, im.ny - 1 - j) IN Build(im.dt, im.x0, im.y0, im.nx, im.ny, f, <<>>)
    [] op = "rot_180" -> LET f(i, j) == P0(im, im.nx - 1 - i, im.ny - 1 - j) IN Build(im.dt, im.x0, im.y0, im.nx, im.ny, f, <<>>)
    \* clockwise: the left column becomes the top row
    [] op = "rot_cw" -> LET f(i, j) == P0(im, im.nx - 1 - j, i) IN Build(im.dt, im.y0, im.x0, im.ny, im.nx, f, <<>>)
    [] op = "rot_ccw" -> LET f(i, j) == P0(im, j, im.ny - 1 - i) IN Build(im.dt, im.y0, im.x0, im.ny, im.nx, f, <<>>)
GeoOps == {"transpose", "flip_lr", "flip_ud", "rot_180", "rot_cw", "rot_ccw"}

Sub2(im, x0, y0, nx, ny) ==
  LET f(i, j) == At(im, x0 + i, y0 + j) IN Build(im.dt, x0, y0, nx, ny, f, im.w)

SameShape(a, b) == a.def = b.def /\ a.nx = b.nx /\ a.ny = b.ny
WProbe(w) == IF w = <<>> THEN <<>> ELSE <<WorldU(w, "0", "0"), WorldV(w, "0", "0"), WorldU(w, "100", "0"),
   WorldV(w, "100", "0"), WorldU(w, "0", "100"), WorldV(w, "0", "100")>>
WSameMap(v, w) == SeqClose(WProbe(v), WProbe(w), "1e-9", "1e-9")
\* equality of everything but the wcs
ImEq0(a, b) ==
  /\ a.def = b.def /\ a.const = b.const
  /\ a.def => /\ <<a.x0, a.y0, a.nx, a.ny>> = <<b.x0, b.y0, b.nx, b.ny>>
              /\ \A i \in 1..Len(a.px) : NEq(a.px[i], b.px[i])
ImEq(a, b) == ImEq0(a, b) /\ a.w = b.w
\* two differently described wcs that are the same map may compare either way
EqOpen(a, b) == ImEq0(a, b) /\ a.w # b.w /\ WSameMap(a.w, b.w)

\* ---------------------------------------------------------------- transitions
\* A transition answers [h |-> new heap, err |-> "" or error class, out |-> reply]
Ret(h) == [h |-> h, err |-> "", out |-> <<>>]
Fail(h, e) == [h |-> h, err |-> e, out |-> <<>>]     \* a refused call changes nothing
Say(h, s) == [h |-> h, err |-> "", out |-> s]
New(h, im) == Ret(Append(h, im))
Upd(h, i, im) == Ret([h EXCEPT ![i] = im])

\* mutators refuse immutable images
MutErr(im, needdef) ==
  IF im.const THEN "GalSimImmutableError"
  ELSE IF needdef /\ ~im.def THEN "GalSimUndefinedBoundsError" ELSE ""

BinErr(op, a, b) ==
  IF IntOnly(op) /\ ~IsIntT(a.dt) THEN "GalSimValueError"
  ELSE IF ~SameShape(a, b) THEN "GalSimIncompatibleValuesError"
  ELSE IF IntOnly(op) /\ ~IsIntT(b.dt) THEN "GalSimValueError" ELSE ""
BinType(op, a, b) == IF op = "div" THEN DivType(a, b) ELSE Promote(a, b)
ScaType(op, a, st) == IF op = "div" THEN DivTypeS(a, st) ELSE PromoteS(a, st)

BinPx(op, dt, a, b) == [q \in 1..Len(a.px) |-> Repr(dt, Arith(op, a.px[q], b.px[q]))]
ScaPx(op, dt, a, s) == [q \in 1..Len(a.px) |-> Repr(dt, Arith(op, a.px[q], s))]
RScaPx(op, dt, a, s) == [q \in 1..Len(a.px) |-> Repr(dt, Arith(op, s, a.px[q]))]

\* misuses of the interface and how they are refused
BadErr(s, a) ==
  IF s \in {"resize_nobounds", "setsub_nobounds", "copyfrom_nonimage", "setsub_nonimage"}
     /\ a.k = "im" /\ a.const THEN "GalSimImmutableError"
  ELSE IF s = "setsub_nonimage" /\ ~a.def THEN "GalSimUndefinedBoundsError"
  ELSE IF s \in {"resize_nobounds", "sub_nobounds", "setsub_nobounds", "copyfrom_nonimage", "setsub_nonimage",
              "wrap_nobounds", "new_3args", "new_kwarg", "new_badobj", "new_badwcs", "copy_badwcs"} THEN "TypeError"
  ELSE IF s \in {"copy_two_places", "copy_two_wcs", "new_half", "new_two_wcs", "new_init_nosize",
                 "new_arr_bounds", "new_arr_init"} THEN "GalSimIncompatibleValuesError"
  ELSE IF s = "new_baddtype" THEN "GalSimValueError"
  ELSE IF s = "view" THEN "NotImplementedError" ELSE "?"

\* Complex images: one operation on a fresh image (real parts, imaginary parts) and a second operand
CxMul(a, b) == <<Sub(Mul(a[1], b[1]), Mul(a[2], b[2])), Add(Mul(a[1], b[2]), Mul(a[2], b[1]))>>
CxDiv(a, b) == LET m == Add(Sq(b[1]), Sq(b[2])) r == CxMul(a, <<b[1], NNeg(b[2])>>) IN <<Div(r[1], m), Div(r[2], m)>>
CxAdd(a, b) == <<Add(a[1], b[1]), Add(a[2], b[2])>>
CxSub(a, b) == <<Sub(a[1], b[1]), Sub(a[2], b[2])>>
CxMutators == {"iadd", "imul", "isub", "idiv", "iscale", "set", "addv", "fill", "setarr", "copyfrom", "invert"}
CxIsZero(z) == NEq(z[1], "0") /\ NEq(z[2], "0")
Cx(ev) ==
  LET n == ev.n s == ev.s k == n[3] * n[4]
      A == [q \in 1..k |-> <<ev.v[q], ev.v[k + q]>>]
      B == [q \in 1..k |-> <<ev.v[2 * k + q], ev.v[3 * k + q]>>]
      z == IF k > 1 THEN <<ev.v[1], ev.v[2]>> ELSE <<ev.v[1], "2">>
      w == WcsOf(ev.w)
      const == ev.c = "T"
      S2(f(_, _)) == [q \in 1..k |-> f(A[q], B[q])]
      px == CASE s = "conj" -> [q \in 1..k |-> <<A[q][1], NNeg(A[q][2])>>]
              [] s = "sub" -> [q \in 1..n[4] |-> A[(q - 1) * n[3] + 1]]
              [] s = "flip_lr" -> [q \in 1..k |-> A[((q - 1) \div n[3]) * n[3] + n[3] - ((q - 1) % n[3])]]
              [] s = "rot_cw" -> [q \in 1..k |-> A[((q - 1) % n[4]) * n[3] + n[3] - ((q - 1) \div n[4])]]
              [] s \in {"add", "iadd"} -> S2(CxAdd)
              [] s \in {"sub2", "isub"} -> S2(CxSub)
              [] s \in {"mul", "imul"} -> S2(CxMul)
              [] s \in {"div", "idiv"} -> S2(CxDiv)
              [] s = "neg" -> [q \in 1..k |-> <<NNeg(A[q][1]), NNeg(A[q][2])>>]
              [] s \in {"scale", "iscale"} -> [q \in 1..k |-> CxMul(A[q], z)]
              [] s = "set" -> [A EXCEPT ![1] = z]
              [] s = "addv" -> [A EXCEPT ![1] = CxAdd(@, z)]
              [] s = "addreal" -> [q \in 1..k |-> <<Add(A[q][1], B[q][1]), A[q][2]>>]
              [] s = "fill" -> [q \in 1..k |-> z]
              [] s \in {"setarr", "copyfrom"} -> B
              [] s = "invert" -> [q \in 1..k |-> IF CxIsZero(A[q]) THEN A[q] ELSE CxDiv(<<"1", "0">>, A[q])]
              [] OTHER -> A
      half == s \in {"real", "imag"}
      dt == IF half THEN (IF ev.t = "CF" THEN "F" ELSE "D") ELSE IF s = "addreal" THEN "CD" ELSE ev.t
      keepc == s \in {"tree", "pickle", "deepcopy", "real", "imag", "ref"}
      bnd == IF s = "sub" THEN <<n[1], n[1], n[2], n[2] + n[4] - 1>>
             ELSE IF s = "rot_cw" THEN <<n[2], n[2] + n[4] - 1, n[1], n[1] + n[3] - 1>>
             ELSE <<n[1], n[1] + n[3] - 1, n[2], n[2] + n[4] - 1>>
      ww == IF s \in {"flip_lr", "rot_cw"} THEN <<>> ELSE w
      c2(i) == [q \in 1..Len(px) |-> px[q][i]]
  IN IF s \in CxMutators /\ const THEN [err |-> "GalSimImmutableError", out |-> <<>>]
     ELSE IF s \in {"div", "idiv"} /\ \E q \in 1..k : CxIsZero(B[q]) THEN [err |-> "?", out |-> <<>>]
     ELSE IF s = "get" THEN [err |-> "", out |-> A[1]]
     ELSE IF s = "eq" THEN LET e == ~const /\ w = <<>> /\ \A q \in 1..k : NEq(A[q][1], B[q][1]) /\ NEq(A[q][2], B[q][2]) IN
          [err |-> "", out |-> <<IF e THEN "T" ELSE "F", "T", IF e THEN "F" ELSE "T">>]
     ELSE [err |-> "", out |-> <<dt, IF const /\ keepc THEN "T" ELSE "F", IF half THEN "F" ELSE "T">>
            \o [i \in 1..4 |-> N(bnd[i])]
            \o (IF ww = <<>> THEN <<"no-wcs">> ELSE <<WorldU(ww, "0", "0"), WorldV(ww, "0", "0"), WorldU(ww, "1", "0"), WorldV(ww, "1", "0"),
                 WorldU(ww, "0", "1"), WorldV(ww, "0", "1")>>)
            \o (IF s = "imag" THEN c2(2) ELSE IF s = "real" THEN c2(1) ELSE c2(1) \o c2(2))]

\* one call: ev.op, ev.a target handle, ev.b operand handle, ev.n integers,
\* ev.v numbers, ev.t type / scalar type, ev.s sub-operation
Do(h, ev) ==
  LET op == ev.op
      a == IF ev.a > 0 THEN h[ev.a] ELSE [k |-> "none"]
      b == IF ev.b > 0 THEN h[ev.b] ELSE [k |-> "none"]
      n == ev.n v == ev.v IN
  CASE op = "newsize" ->   \* Image(ncol, nrow, dtype, init_value, xmin, ymin)
         IF n[3] = 0 \/ n[4] = 0 THEN New(h, Undefined(ev.t, WcsOf(ev.w), ev.c = "T"))
         ELSE New(h, Im(ev.t, n[1], n[2], n[3], n[4],
                        [q \in 1..(n[3] * n[4]) |-> CastTrunc(ev.t, v[1])], WcsOf(ev.w), ev.c = "T"))
    [] op = "newarr" ->    \* Image(array, xmin, ymin, dtype)
         New(h, Im(ev.t, n[1], n[2], n[3], n[4], [q \in 1..Len(v) |-> Cast(ev.t, v[q])], WcsOf(ev.w), ev.c = "T"))
    [] op = "newimg" ->    \* Image(image, dtype)
         New(h, [a EXCEPT !.dt = ev.t, !.px = [q \in 1..Len(a.px) |-> Cast(ev.t, a.px[q])], !.const = (ev.c = "T")])
    [] op = "copy" ->      \* im.copy(dtype, make_const)
         New(h, [a EXCEPT !.dt = ev.t, !.px = [q \in 1..Len(a.px) |-> Cast(ev.t, a.px[q])], !.const = (ev.c = "T")])
    [] op = "copycen" -> IF ~a.def THEN Fail(h, "?") ELSE
         New(h, [Shifted(a, n[1] - CenX(a), n[2] - CenY(a)) EXCEPT !.const = FALSE])
    [] op = "copyorg" -> IF ~a.def THEN Fail(h, "?") ELSE
         New(h, [Shifted(a, n[1] - a.x0, n[2] - a.y0) EXCEPT !.const = FALSE])
    [] op = "id" -> New(h, a)   \* deepcopy, pickle, pytree, jit identity, reference round trip
    [] op = "real" -> New(h, a)
    [] op = "imag" -> IF ~a.def THEN Fail(h, "?") ELSE
         New(h, [a EXCEPT !.px = [q \in 1..Len(a.px) |-> "0"], !.const = TRUE])
    [] op = "conj" -> IF ~a.def THEN Fail(h, "?") ELSE New(h, [a EXCEPT !.const = FALSE])
    [] op = "geo" -> IF ~a.def THEN Fail(h, "?") ELSE New(h, Geo(ev.s, a))
    [] op = "sub" ->       \* im.subImage / im[bounds]
         IF ~a.def THEN Fail(h, "GalSimUndefinedBoundsError")
         ELSE IF n[3] < 1 \/ n[4] < 1 \/ ~In(a, n[1], n[2]) \/ ~In(a, n[1] + n[3] - 1, n[2] + n[4] - 1)
              THEN Fail(h, "GalSimBoundsError")
         ELSE New(h, Sub2(a, n[1], n[2], n[3], n[4]))
    [] op = "bin" ->       \* im1 (op) im2
         IF BinErr(ev.s, a, b) # "" THEN Fail(h, BinErr(ev.s, a, b))
         ELSE IF ~a.def THEN New(h, Undefined(BinType(ev.s, a.dt, b.dt), a.w, FALSE))
         ELSE LET dt == BinType(ev.s, a.dt, b.dt) IN
              New(h, Im(dt, a.x0, a.y0, a.nx, a.ny, BinPx(ev.s, dt, a, b), a.w, FALSE))
    [] op = "sca" ->       \* im (op) scalar
         IF IntOnly(ev.s) /\ ~IsIntT(a.dt) THEN Fail(h, "GalSimValueError")
         ELSE LET dt == ScaType(ev.s, a.dt, ev.t) IN
              New(h, [a EXCEPT !.dt = dt, !.px = ScaPx(ev.s, dt, a, v[1]), !.const = FALSE])
    [] op = "rsca" ->      \* scalar (op) im
         IF IntOnly(ev.s) /\ ~IsIntT(a.dt) THEN Fail(h, "GalSimValueError")
         ELSE LET dt == ScaType(ev.s, a.dt, ev.t) IN
              New(h, [a EXCEPT !.dt = dt, !.px = RScaPx(ev.s, dt, a, v[1]), !.const = FALSE])
    [] op = "neg" -> New(h, [a EXCEPT !.px = [q \in 1..Len(a.px) |-> Repr(a.dt, NNeg(a.px[q]))], !.const = FALSE])
    [] op = "ibin" ->      \* im1 (op)= im2
         IF MutErr(a, FALSE) # "" THEN Fail(h, MutErr(a, FALSE))
         ELSE IF BinErr(ev.s, a, b) # "" THEN Fail(h, BinErr(ev.s, a, b))
         ELSE LET dt == BinType(ev.s, a.dt, b.dt) IN
              Upd(h, ev.a, [a EXCEPT !.px = [q \in 1..Len(a.px) |-> Cast(a.dt, Repr(dt, Arith(ev.s, a.px[q], b.px[q])))]])
    [] op = "isca" ->      \* im (op)= scalar
         IF MutErr(a, FALSE) # "" THEN Fail(h, MutErr(a, FALSE))
         ELSE IF IntOnly(ev.s) /\ ~IsIntT(a.dt) THEN Fail(h, "GalSimValueError")
         ELSE LET dt == ScaType(ev.s, a.dt, ev.t) IN
              Upd(h, ev.a, [a EXCEPT !.px = [q \in 1..Len(a.px) |-> Cast(a.dt, Repr(dt, Arith(ev.s, a.px[q], v[1])))]])
    [] op = "get" ->
         IF ~a.def THEN Fail(h, "GalSimUndefinedBoundsError")
         ELSE IF ~In(a, n[1], n[2]) THEN Fail(h, "GalSimBoundsError")
         ELSE Say(h, <<At(a, n[1], n[2])>>)
    [] op = "set" ->
         IF MutErr(a, TRUE) # "" THEN Fail(h, MutErr(a, TRUE))
         ELSE IF ~In(a, n[1], n[2]) THEN Fail(h, "GalSimBoundsError")
         ELSE Upd(h, ev.a, [a EXCEPT !.px[Idx(a, n[1], n[2])] = CastTrunc(a.dt, v[1])])
    [] op = "addv" ->
         IF MutErr(a, TRUE) # "" THEN Fail(h, MutErr(a, TRUE))
         ELSE IF ~In(a, n[1], n[2]) THEN Fail(h, "GalSimBoundsError")
         ELSE Upd(h, ev.a, [a EXCEPT !.px[Idx(a, n[1], n[2])] = Repr(a.dt, Add(@, v[1]))])
    [] op = "fill" ->
         IF MutErr(a, TRUE) # "" THEN Fail(h, MutErr(a, TRUE))
         ELSE LET c(x) == CastTrunc(a.dt, v[1]) IN Upd(h, ev.a, [a EXCEPT !.px = MapPx(a, c)])
    [] op = "zero" ->
         IF MutErr(a, FALSE) # "" THEN Fail(h, MutErr(a, FALSE))
         ELSE LET c(x) == "0" IN Upd(h, ev.a, [a EXCEPT !.px = MapPx(a, c)])
    [] op = "invert" ->
         IF MutErr(a, TRUE) # "" THEN Fail(h, MutErr(a, TRUE))
         ELSE LET c(x) == IF NEq(x, "0") THEN "0" ELSE Cast(a.dt, Div("1", x)) IN Upd(h, ev.a, [a EXCEPT !.px = MapPx(a, c)])
    [] op = "replneg" ->
         IF MutErr(a, FALSE) # "" THEN Fail(h, MutErr(a, FALSE))
         ELSE LET c(x) == IF Lt(x, "0") THEN CastTrunc(a.dt, v[1]) ELSE x IN Upd(h, ev.a, [a EXCEPT !.px = MapPx(a, c)])
    [] op = "copyfrom" ->
         IF MutErr(a, FALSE) # "" THEN Fail(h, MutErr(a, FALSE))
         ELSE IF ~SameShape(a, b) THEN Fail(h, "GalSimIncompatibleValuesError")
         ELSE Upd(h, ev.a, [a EXCEPT !.px = [q \in 1..Len(a.px) |-> Cast(a.dt, b.px[q])]])
    [] op = "setsub" ->
         IF MutErr(a, TRUE) # "" THEN Fail(h, MutErr(a, TRUE))
         ELSE IF n[3] < 1 \/ n[4] < 1 \/ ~In(a, n[1], n[2]) \/ ~In(a, n[1] + n[3] - 1, n[2] + n[4] - 1)
              THEN Fail(h, "GalSimBoundsError")
         ELSE IF ~b.def \/ b.nx # n[3] \/ b.ny # n[4] THEN Fail(h, "GalSimIncompatibleValuesError")
         ELSE Upd(h, ev.a, [a EXCEPT !.px = [q \in 1..Len(a.px) |->
                 LET i == ((q - 1) % a.nx) - (n[1] - a.x0) j == ((q - 1) \div a.nx) - (n[2] - a.y0) IN
                 IF i >= 0 /\ i < n[3] /\ j >= 0 /\ j < n[4] THEN Cast(a.dt, P0(b, i, j)) ELSE a.px[q]]])
    [] op = "resize" ->
         IF MutErr(a, FALSE) # "" THEN Fail(h, MutErr(a, FALSE))
         ELSE IF n[3] < 1 \/ n[4] < 1 THEN Upd(h, ev.a, Undefined(a.dt, a.w, FALSE))
         ELSE Upd(h, ev.a, Im(a.dt, n[1], n[2], n[3], n[4], [q \in 1..(n[3] * n[4]) |-> "0"], a.w, FALSE))
    [] op = "shift" -> IF ~a.def THEN Fail(h, "?") ELSE Upd(h, ev.a, Shifted(a, n[1], n[2]))
    [] op = "setcen" -> IF ~a.def THEN Fail(h, "GalSimUndefinedBoundsError") ELSE Upd(h, ev.a, Shifted(a, n[1] - CenX(a), n[2] - CenY(a)))
    [] op = "setorg" -> IF ~a.def THEN Fail(h, "?") ELSE Upd(h, ev.a, Shifted(a, n[1] - a.x0, n[2] - a.y0))
    [] op = "setarr" ->
         IF MutErr(a, FALSE) # "" THEN Fail(h, MutErr(a, FALSE))
         ELSE Upd(h, ev.a, [a EXCEPT !.px = [q \in 1..Len(v) |-> Cast(a.dt, v[q])]])
    [] op = "setwcs" -> Upd(h, ev.a, [a EXCEPT !.w = WcsOf(ev.w)])
    [] op = "getarr" -> IF ~a.def THEN Fail(h, "?") ELSE New(h, [k |-> "arr", px |-> a.px])
    [] op = "npmut" -> Ret(h)   \* the caller scribbles on its own numpy array: no image sees it
    [] op = "eq" -> IF EqOpen(a, b) THEN Fail(h, "?") ELSE Say(h, <<IF ImEq(a, b) THEN "T" ELSE "F", IF ImEq(a, b) THEN "F" ELSE "T">>)
    [] op = "cen" -> IF ~a.def THEN Fail(h, "GalSimUndefinedBoundsError")
         ELSE Say(h, <<N(CenX(a)), N(CenY(a)), Sub(Add(N(a.x0), Mul("0.5", N(a.nx))), "0.5"),
                       Sub(Add(N(a.y0), Mul("0.5", N(a.ny))), "0.5"), N(a.x0), N(a.y0),
                       Sub(N(a.x0), "0.5"), Add(N(a.x0 + a.nx - 1), "0.5"),
                       Sub(N(a.y0), "0.5"), Add(N(a.y0 + a.ny - 1), "0.5")>>)
    [] op = "pixcen" -> IF ~a.def THEN Fail(h, "?")
         ELSE Say(h, [q \in 1..(2 * Len(a.px)) |-> IF q <= Len(a.px)
                 THEN N(a.x0 + ((q - 1) % a.nx)) ELSE N(a.y0 + (q - Len(a.px) - 1) \div a.nx)])
    [] op = "cx" -> LET r == Cx(ev) IN IF r.err # "" THEN Fail(h, r.err) ELSE Say(h, r.out)
    [] op = "bad" -> Fail(h, BadErr(ev.s, a))   \* misuse: refused, and nothing changes
    [] OTHER -> Fail(h, "unknown-op")

\* ---------------------------------------------------------------- observation
TF(x) == IF x THEN "T" ELSE "F"
WProj(w) == IF w = <<>> THEN <<"no-wcs">>
  ELSE <<WorldU(w, "0", "0"), WorldV(w, "0", "0"), WorldU(w, "1", "0"), WorldV(w, "1", "0"),
         WorldU(w, "0", "1"), WorldV(w, "0", "1")>>
Proj(o) ==
  IF o.k = "arr" THEN <<"arr">> \o o.px
  ELSE <<"im", o.dt, TF(o.def), TF(o.const)>> \o WProj(o.w) \o
       (IF o.def THEN <<N(o.x0), N(o.x0 + o.nx - 1), N(o.y0), N(o.y0 + o.ny - 1), N(o.ny), N(o.nx)>> \o o.px
        ELSE <<>>)
RECURSIVE ProjAll(_, _)
ProjAll(h, i) == IF i > Len(h) THEN <<>> ELSE Proj(h[i]) \o ProjAll(h, i + 1)
=============================================================================
