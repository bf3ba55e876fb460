------------------------------- MODULE FitsMC -------------------------------
(* Small model: two files of different extension, images of one to two       *)
(* pixels, every request in any order.  Ghost: for every entry of a file, the *)
(* images it was made of.                                                     *)
EXTENDS Fits
CONSTANTS MaxOps, Ims
VARIABLES files, ghost, list, lghost, n, last
vars == <<files, ghost, list, lghost, n, last>>
Names == {"a.fits", "b.fz", "c.gz"}
Ext(f) == CASE f = "a.fits" -> "fits" [] f = "b.fz" -> "fz" [] f = "c.gz" -> "gz"
I1 == [b |-> <<1, 1, 1, 1>>, dt |-> "i4", px |-> <<"7">>, w |-> <<"A">>, h |-> <<>>]
I2 == [b |-> <<0, 0, -2, -2>>, dt |-> "f8", px |-> <<"8">>, w |-> <<"B">>, h |-> <<<<"K", "1">>>>]
I3 == [b |-> <<3, 4, 5, 5>>, dt |-> "i8", px |-> <<"1", "2">>, w |-> NoW, h |-> <<>>]
Im(i) == <<I1, I2, I3>>[i]
Absent == [fc |-> "", hdus |-> <<>>]
Init == files = [f \in Names |-> Absent] /\ ghost = [f \in Names |-> <<>>] /\ list = <<>> /\ lghost = <<>> /\ n = 0 /\ last = "init"
There(f) == files[f].hdus # <<>>
Comps == {"auto", "rice", "none"}
\* ghost entries: <<images, stacked?, headers kept>>
G(tile, old, gs) == IF tile # "" /\ old = <<>> THEN <<<<>>>> \o gs ELSE gs
Store(f, m, hdus, gs) == files' = [files EXCEPT ![f] = [fc |-> m.file, hdus |-> hdus]] /\ ghost' = [ghost EXCEPT ![f] = gs]
Write == \E f \in Names, c \in Comps, i \in Ims, clob \in BOOLEAN : LET m == Means(c, Ext(f)) IN
  IF There(f) /\ ~clob THEN last' = "refused" /\ UNCHANGED <<files, ghost, list, lghost>>
  ELSE Store(f, m, AddHdu(<<>>, Entry(Im(i), m.tile)), G(m.tile, <<>>, <<<<i>>>>)) /\ last' = "write" /\ UNCHANGED <<list, lghost>>
Multi == \E f \in Names, c \in Comps, i \in Ims, j \in Ims : LET m == Means(c, Ext(f)) IN
  Store(f, m, AddAll(<<>>, <<Entry(Im(i), m.tile), Entry(Im(j), m.tile)>>), G(m.tile, <<>>, <<<<i>>, <<j>>>>)) /\ last' = "multi" /\ UNCHANGED <<list, lghost>>
Cube == \E f \in Names, c \in Comps, i \in Ims, j \in Ims : LET m == Means(c, Ext(f)) IN
  IF ~Stackable(<<Im(i), Im(j)>>) THEN last' = "refused" /\ UNCHANGED <<files, ghost, list, lghost>>
  ELSE Store(f, m, AddHdu(<<>>, CubeOf(<<Im(i), Im(j)>>, m.tile)), G(m.tile, <<>>, <<<<i, j>>>>)) /\ last' = "cube" /\ UNCHANGED <<list, lghost>>
ToList == \E c \in Comps, i \in Ims : Len(list) < 3 /\ LET m == Means(c, "") IN
  /\ list' = AddHdu(list, Entry(Im(i), m.tile)) /\ lghost' = lghost \o G(m.tile, list, <<<<i>>>>)
  /\ last' = "list" /\ UNCHANGED <<files, ghost>>
File == \E f \in Names : list # <<>> /\ Store(f, Means("auto", Ext(f)), list, lghost) /\ last' = "file" /\ UNCHANGED <<list, lghost>>
Next == n < MaxOps /\ n' = n + 1 /\ (Write \/ Multi \/ Cube \/ ToList \/ File)
Spec == Init /\ [][Next]_vars

\* what an image is after a passage through a file
Through(im) == [im EXCEPT !.dt = DtRead(@), !.h = im.h, !.w = IF im.w = NoW THEN PixelOne ELSE @,
                          !.b = IF im.w = NoW THEN <<1, NX(im), 1, NY(im)>> ELSE @]
Sound(hl, g) == \A q \in 1..Len(hl) :
  IF hl[q].k = "blank" THEN g[q] = <<>> /\ q = 1
  ELSE /\ Len(g[q]) = Len(ImagesOf(hl[q]))
       /\ (Len(g[q]) = 1 => ImageOf(hl[q], TRUE) = Through(Im(g[q][1])))
       /\ \A k \in 1..Len(g[q]) : ImagesOf(hl[q])[k].px = Im(g[q][k]).px
RoundTrip == (\A f \in Names : Len(ghost[f]) = Len(files[f].hdus) /\ Sound(files[f].hdus, ghost[f])) /\ Sound(list, lghost) /\ Len(list) = Len(lghost)
\* a compressed entry is never first; what "auto" writes, "auto" reads
NeverFirst == (\A f \in Names : There(f) => files[f].hdus[1].k # "tile") /\ (list # <<>> => list[1].k # "tile")
AutoReads == [][\A f \in Names : last' \in {"write", "multi", "cube"} /\ files'[f] # files[f] /\ files'[f].fc = Means("auto", Ext(f)).file
                 /\ (files'[f].hdus[1].k = "blank") = (Means("auto", Ext(f)).tile # "") =>
                 LET t == Means("auto", Ext(f)).tile p == Pick(files'[f].hdus, 0 - 1, t) IN p > 0 /\ Readable(files'[f].hdus[p], t)]_vars
Refused == [][last' = "refused" => UNCHANGED <<files, list>>]_vars
OneFile == [][Cardinality({f \in Names : files'[f] # files[f]}) <= 1]_vars
=============================================================================
