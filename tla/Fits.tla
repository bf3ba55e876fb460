-------------------------------- MODULE Fits --------------------------------
(* A directory of FITS files, lists of HDUs held in memory, and images.       *)
(*                                                                            *)
(* image: [b |-> <<x0,x1,y0,y1>>, dt, px (row order), w (coordinate system:   *)
(*         what it says of a few places), h (entries: <<key, value>> pairs)]  *)
(* hdu:   [k |-> "blank" | "plain" | "tile", dt, nx, ny, nz (0: a plane), px, *)
(*         org |-> <<x0, y0>>, w, h]                                          *)
(* file:  [fc |-> "" | "gzip" | "bzip2", hdus]                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

NoW == <<>>                      \* an image without coordinate system
Cplx == {"c8", "c16"}
Known8 == {"i2", "i4", "u2", "u4", "f4", "f8"}
NX(im) == im.b[2] - im.b[1] + 1
NY(im) == im.b[4] - im.b[3] + 1

\* what is said when a header says nothing: one unit per pixel
PixelOne == <<"E", "1", "1", "5", "-3", "2.5", "7">>
(* ---------------------------- compressions ------------------------------- *)
Tiles == [rice |-> "RICE_1", gzip_tile |-> "GZIP_1", hcompress |-> "HCOMPRESS_1", plio |-> "PLIO_1"]
Modes == {"auto", "none", "gzip", "bzip2"} \cup DOMAIN Tiles
\* what a request means for a file with extension e ("" for a list): [file, tile]
Means(comp, e) ==
  IF comp \in DOMAIN Tiles THEN [file |-> "", tile |-> Tiles[comp]]
  ELSE IF comp \in {"gzip", "bzip2"} THEN [file |-> comp, tile |-> ""]
  ELSE IF comp = "none" THEN [file |-> "", tile |-> ""]
  ELSE CASE e = "fz" -> [file |-> "", tile |-> "RICE_1"]
         [] e = "gz" -> [file |-> "gzip", tile |-> ""]
         [] e = "bz2" -> [file |-> "bzip2", tile |-> ""]
         [] OTHER -> [file |-> "", tile |-> ""]

(* -------------------------------- writing -------------------------------- *)
Blank == [k |-> "blank", dt |-> "", nx |-> 0, ny |-> 0, nz |-> 0, px |-> <<>>, org |-> <<1, 1>>, w |-> NoW, h |-> <<>>, tile |-> ""]
\* without a coordinate system the header says nothing of the origin
Entry(im, tile) == [k |-> IF tile = "" THEN "plain" ELSE "tile", dt |-> im.dt, nx |-> NX(im), ny |-> NY(im), nz |-> 0, px |-> im.px,
                    org |-> IF im.w = NoW THEN <<1, 1>> ELSE <<im.b[1], im.b[3]>>, w |-> im.w, h |-> im.h, tile |-> tile]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
CubeOf(ims, tile) == [Entry(ims[1], tile) EXCEPT !.nz = Len(ims), !.px = Flat([q \in 1..Len(ims) |-> ims[q].px])]
\* a stack of plain arrays has no header of ours
ArrayCube(ims, tile) == [CubeOf(ims, tile) EXCEPT !.org = <<1, 1>>, !.w = NoW, !.h = <<>>]
\* a compressed image is never the first of a list
AddTo(hl, x) == (IF hl = <<>> /\ x.k = "tile" THEN <<Blank>> ELSE <<>>)
AddHdu(hl, x) == hl \o AddTo(hl, x) \o <<x>>
RECURSIVE AddAll(_, _)
AddAll(hl, xs) == IF xs = <<>> THEN hl ELSE AddAll(AddHdu(hl, xs[1]), Tail(xs))
Stackable(ims) == \A q \in 1..Len(ims) : NX(ims[q]) = NX(ims[1]) /\ NY(ims[q]) = NY(ims[1])

(* -------------------------------- reading -------------------------------- *)
\* which of the HDUs is meant by number n (-1: the first that can hold an image); 0: none
Pick(hl, n, tile) == LET m == IF n >= 0 THEN n + 1 ELSE IF tile # "" THEN 2 ELSE 1 IN IF m <= Len(hl) THEN m ELSE 0
Readable(x, tile) == x.k # "blank" /\ (tile # "" => x.k = "tile")
\* (the wide integers of an array of numpy become the integers of an image)
DtRead(dt) == IF dt \in Known8 THEN dt ELSE IF dt = "i8" THEN "i4" ELSE "f8"
Plane(x, q) == [b |-> <<x.org[1], x.org[1] + x.nx - 1, x.org[2], x.org[2] + x.ny - 1>>, dt |-> DtRead(x.dt),
                px |-> SubSeq(x.px, (q - 1) * x.nx * x.ny + 1, q * x.nx * x.ny), w |-> IF x.w = NoW THEN PixelOne ELSE x.w, h |-> <<>>]
ImageOf(x, rh) == [Plane(x, 1) EXCEPT !.h = IF rh THEN x.h ELSE <<>>]
ImagesOf(x) == [q \in 1..(IF x.nz = 0 THEN 1 ELSE x.nz) |-> Plane(x, q)]
=============================================================================
