----------------------------- MODULE FitsTrace -----------------------------
(* Recorded histories of writes and reads in a real directory.               *)
(* ev.ch: the names of the files that were created, changed or removed.       *)
EXTENDS Fits, TraceLib
VARIABLES l, st, dead
NoFiles == [f \in {} |-> 0]
S0 == [off |-> FALSE, files |-> NoFiles, ims |-> <<>>, lists |-> <<>>]
TF(b) == IF b THEN "T" ELSE "F"
Keys == <<"AKEY", "BKEY", "CKEY">>
Val(h, k) == IF \E q \in 1..Len(h) : h[q][1] = k THEN h[CHOOSE q \in 1..Len(h) : h[q][1] = k][2] ELSE "-"
Vals(h) == [q \in 1..Len(Keys) |-> Val(h, Keys[q])]
Look(im) == <<im.dt, N(im.b[1]), N(im.b[2]), N(im.b[3]), N(im.b[4])>> \o im.w \o Vals(im.h) \o im.px
RECURSIVE Looks(_)
Looks(ims) == IF ims = <<>> THEN <<>> ELSE Look(ims[1]) \o Looks(Tail(ims))
Lax0(s, cl) == [st |-> [s EXCEPT !.off = TRUE], exp |-> <<>>, err |-> "?", tol |-> Exact, clause |-> cl]
E(s, ev, e, cl) == Err(s, IF ev.ch = <<>> THEN e ELSE "no-file-is-touched-by-a-refused-call", cl)
R(s, ev, ch, exp, cl) == [st |-> s, exp |-> ch \o exp, err |-> "", tol |-> Loose, clause |-> cl]
Put(fs, f, v) == [x \in {f} \cup DOMAIN fs |-> IF x = f THEN v ELSE fs[x]]

\* where the HDUs go: a file (replacing what it was), or a list
Store(s, ev, xs, obs, cl) ==
  LET m == Means(ev.comp, ev.ext) IN
  IF ev.l > 0 THEN R([s EXCEPT !.lists[ev.l] = AddAll(@, xs)], ev, <<>>, obs, cl)
  ELSE IF ev.f \in DOMAIN s.files /\ ~ev.clob THEN E(s, ev, "OSError", cl)
  ELSE R([s EXCEPT !.files = Put(@, ev.f, [fc |-> m.file, hdus |-> AddAll(<<>>, xs)])], ev, <<ev.f>>, obs, cl)
Wrong(ev) == IF ev.comp \notin Modes THEN "GalSimValueError" ELSE IF ev.how \in {"both", "neither"} THEN "GalSimIncompatibleValuesError" ELSE ""
\* the images that were written are still there, unchanged
Still(ims) == Flat([q \in 1..Len(ims) |-> <<"T">> \o Look(ims[q])])
WriteEv(s, ev, cl) ==
  LET ims == [q \in 1..Len(ev.as) |-> s.ims[ev.as[q]]] t == Means(ev.comp, ev.ext).tile
      arr == ev.how \in {"arr", "cube3", "jarr"} IN
  IF ~(arr /\ ev.s # "") /\ (\E q \in 1..Len(ims) : ims[q].dt \in Cplx) THEN E(s, ev, "GalSimValueError", cl)
  ELSE IF ims = <<>> /\ ev.op = "writec" THEN E(s, ev, "GalSimValueError", cl)
  ELSE IF Wrong(ev) # "" THEN E(s, ev, Wrong(ev), cl)
  ELSE IF ev.op = "writec" /\ ~Stackable(ims) THEN E(s, ev, IF arr THEN "any" ELSE "GalSimValueError", cl)
  ELSE IF ev.op = "writec" THEN
    LET x == IF arr THEN [ArrayCube(ims, t) EXCEPT !.dt = IF ev.s = "" THEN @ ELSE ev.s] ELSE CubeOf(ims, t) IN
    Store(s, ev, <<x>>, Still(ims), cl)
  ELSE Store(s, ev, [q \in 1..Len(ims) |-> Entry(ims[q], t)], Still(ims), cl)

\* a compressed image of real numbers is close to what was written
Lossy(x) == x.k = "tile" /\ DtRead(x.dt) \in {"f4", "f8"} /\ x.dt \in {"f4", "f8"}
Hdus(s, ev) == IF ev.l > 0 THEN s.lists[ev.l] ELSE s.files[ev.f].hdus
\* pixels as observed, in the place of those that were lost
RECURSIVE Taken(_, _, _, _)
Taken(ims, lossy, obs, at) ==
  IF ims = <<>> THEN <<>>
  ELSE LET im == ims[1] n == Len(im.px) m == Len(Look(im)) IN
       <<IF lossy[1] /\ Len(obs) >= at + m THEN [im EXCEPT !.px = SubSeq(obs, at + m - n + 1, at + m)] ELSE im>>
       \o Taken(Tail(ims), Tail(lossy), obs, at + m)
Num0(p) == SubSeq(p, 2, Len(p))
Top(v) == v[CHOOSE q \in 1..Len(v) : \A r \in 1..Len(v) : Le(v[r], v[q])]
Bottom(v) == v[CHOOSE q \in 1..Len(v) : \A r \in 1..Len(v) : Le(v[q], v[r])]
NearPx(a, b) == LET v == [q \in 1..Len(a) |-> Num0(a[q])] w == [q \in 1..Len(b) |-> Num0(b[q])]
                    hi == Top(v) lo == Bottom(v) IN
  \A q \in 1..Len(v) : Le(Abs(Sub(v[q], w[q])), Add(Mul("0.5", Sub(hi, lo)), Mul("1e-6", Add(Abs(hi), Abs(lo)))))
Got(s, ev, xs, lossy, cl) ==
  LET t == Taken(xs, lossy, ev.obs, 0)
      ok == \A q \in 1..Len(xs) : lossy[q] => NearPx(xs[q].px, t[q].px) IN
  R([s EXCEPT !.ims = @ \o t], ev, <<>>, IF ok THEN Looks(t) ELSE <<"close-to-what-was-written">> \o Looks(xs), cl)
Rep(x, n) == [q \in 1..n |-> x]
ReadEv(s, ev, cl) ==
  LET m == Means(ev.comp, ev.ext) IN
  IF Wrong(ev) # "" THEN E(s, ev, Wrong(ev), cl)
  ELSE IF ev.l = 0 /\ ev.f \notin DOMAIN s.files THEN E(s, ev, "OSError", cl)
  ELSE IF ev.l = 0 /\ s.files[ev.f].fc # m.file THEN Lax0(s, cl)
  ELSE LET hl == Hdus(s, ev) p == Pick(hl, ev.hdu, m.tile) first == IF m.tile = "" THEN 1 ELSE 2 IN
  CASE ev.op = "read" ->
         IF p = 0 \/ ~Readable(hl[p], m.tile) THEN E(s, ev, "OSError", cl)
         ELSE IF hl[p].nz > 0 THEN E(s, ev, "any", cl)
         ELSE Got(s, ev, <<ImageOf(hl[p], ev.rh)>>, <<Lossy(hl[p])>>, cl)
    [] ev.op = "readm" ->
         IF Len(hl) < first THEN E(s, ev, "OSError", cl)
         ELSE IF \E q \in first..Len(hl) : ~Readable(hl[q], m.tile) THEN E(s, ev, "OSError", cl)
         ELSE IF \E q \in first..Len(hl) : hl[q].nz > 0 THEN E(s, ev, "any", cl)
         ELSE Got(s, ev, [q \in 1..(Len(hl) - first + 1) |-> ImageOf(hl[q + first - 1], ev.rh)],
                  [q \in 1..(Len(hl) - first + 1) |-> Lossy(hl[q + first - 1])], cl)
    [] ev.op = "readc" ->
         IF p = 0 \/ ~Readable(hl[p], m.tile) THEN E(s, ev, "OSError", cl)
         ELSE IF hl[p].nz = 0 THEN Lax0(s, cl)
         ELSE Got(s, ev, ImagesOf(hl[p]), Rep(Lossy(hl[p]), hl[p].nz), cl)
    [] ev.op = "header" ->
         IF hl = <<>> THEN Lax0(s, cl)
         ELSE IF p = 0 \/ (m.tile # "" /\ hl[p].k # "tile") THEN E(s, ev, "OSError", cl) ELSE R(s, ev, <<>>, Vals(hl[p].h), cl)
FileEv(s, ev, cl) ==
  IF s.lists[ev.l] = <<>> THEN Lax0(s, cl)
  ELSE IF ev.comp \notin Modes \/ ev.comp \in DOMAIN Tiles THEN E(s, ev, "GalSimValueError", cl)
  ELSE IF ev.f \in DOMAIN s.files /\ ~ev.clob THEN E(s, ev, "OSError", cl)
  ELSE R([s EXCEPT !.files = Put(@, ev.f, [fc |-> Means(ev.comp, ev.ext).file, hdus |-> s.lists[ev.l]])], ev, <<ev.f>>, <<>>, cl)
Step(s, ev) ==
  LET cl == ev.op \o "/" \o ev.how \o "/" \o ev.ext \o "/" \o ev.comp IN
  IF s.off \/ ev.l > Len(s.lists) \/ \E q \in 1..Len(ev.as) : ev.as[q] > Len(s.ims)
  THEN [st |-> s, exp |-> <<>>, err |-> "?", tol |-> Exact, clause |-> cl]
  ELSE CASE ev.op = "im" ->
         LET im == [b |-> ev.t, dt |-> ev.s, px |-> ev.px, w |-> ev.wo, h |-> ev.h] IN
         R([s EXCEPT !.ims = Append(@, im)], ev, <<>>, Look(im), "im/" \o ev.how)
    [] ev.op = "list" -> R([s EXCEPT !.lists = Append(@, <<>>)], ev, <<>>, <<>>, cl)
    [] ev.op = "see" -> R(s, ev, <<>>, Look(s.ims[ev.as[1]]), cl)
    [] ev.op \in {"write", "writem", "writec"} -> WriteEv(s, ev, cl)
    [] ev.op \in {"read", "readm", "readc", "header"} -> ReadEv(s, ev, cl)
    [] ev.op = "writef" -> FileEv(s, ev, cl)
TInit == l = 1 /\ st = S0 /\ dead = FALSE
\* the files touched are part of what is observed
TNext ==
  /\ l <= Len(Tr) /\ l' = l + 1
  /\ LET ev == Tr[l] IN
     IF ev.op = "reset" THEN st' = S0 /\ dead' = FALSE
     ELSE IF dead THEN UNCHANGED <<st, dead>>
     ELSE LET r == Step(st, ev) e2 == IF Len(ev.err) > 0 THEN ev ELSE [ev EXCEPT !.obs = ev.ch \o @] IN LET ok == Matches(r, e2) IN
          st' = r.st /\ dead' = ~ok /\ (IF ok THEN TRUE ELSE Report(l, r, e2))
  /\ (l = Len(Tr) => PrintT("DONE " \o ToString(l)))
=============================================================================
