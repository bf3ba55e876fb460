-------------------------------- MODULE RNGMC --------------------------------
(* Small-scope model of linked and separate random streams: exhaustive over   *)
(* all interleavings up to Depth; simulated behaviours are replayed.           *)
EXTENDS RNGSpec, TLC, Json
CONSTANTS Depth, MaxH, Gen
VARIABLES st, hist, given
vars == <<st, hist, given>>

E(op, h, g, n, s, k, p, how) == [op |-> op, h |-> h, g |-> g, n |-> n, s |-> s, k |-> k, p |-> p, how |-> how]
KP == IF Gen THEN {<<"U", <<>>>>, <<"G", <<"1.5", "2.0">>>>, <<"Po", <<"3.5">>>>, <<"Ga", <<"1.5", "2.0">>>>,
                   <<"B", <<>>>>, <<"W", <<"2.0", "3.0">>>>, <<"C", <<"2.5">>>>, <<"Bi", <<"5", "0.25">>>>}
      ELSE {<<"U", <<>>>>, <<"G", <<"1.5", "2.0">>>>}
Seeds == IF Gen THEN {"5", "6", "123456789"} ELSE {"5", "6"}
Hs == 1..Len(st.hs)
Create == {E("new", 0, 0, 0, s, kp[1], kp[2], h) : s \in Seeds, kp \in KP, h \in {"int"}}
Mk == UNION {{E("newfrom", 0, g, 0, "", kp[1], kp[2], "dev") : kp \in KP}
             \cup {E("fromser", 0, g, 0, "", kp[1], kp[2], "str") : kp \in (IF Gen THEN KP ELSE {<<"U", <<>>>>})}
             \cup {E("dup", g, g, 0, "", "", <<>>, h) : h \in (IF Gen THEN {"duplicate", "copy", "deepcopy", "pickle", "repr", "tree", "jit"} ELSE {"duplicate"})} : g \in Hs}
Use == UNION {{E("draw", h, h, 0, "", "", <<>>, "py"), E("drawjit", h, h, 0, "", "", <<>>, "jit"),
               E("gen", h, h, 2, "", "", <<>>, "py"), E("discard", h, h, 1, "", "", <<>>, "py"),
               E("raw", h, h, 0, "", "", <<>>, "py"), E("clear", h, h, 0, "", "", <<>>, "py"),
               E("use", h, h, 0, "", "", <<>>, "makePhot")}
              \cup {E("seed", h, h, 0, s, "", <<>>, "int") : s \in Seeds}
              \cup {E("resetseed", h, h, 0, s, "", <<>>, "int") : s \in Seeds}
              \cup {E("resetto", h, g, 0, "", "", <<>>, "dev") : g \in Hs}
              \cup (IF Gen THEN {E("ser", h, h, 0, "", "", <<>>, "py"), E("permute", h, h, 4, "", "", <<>>, "py"),
                                 E("genjit", h, h, 3, "", "", <<>>, "jit"), E("drawtree", h, h, 0, "", "", <<>>, "tree"),
                                 E("addgen", h, h, 2, "", "", <<"1.0", "-2.0">>, "py"), E("params", h, h, 0, "", "", <<>>, "py")}
                                \cup {E("eq", h, g, 0, "", "", <<>>, "py") : g \in Hs} ELSE {}) : h \in Hs}
Menu == (IF Len(st.hs) < MaxH THEN Create \cup Mk ELSE {}) \cup Use

Init == st = Init0 /\ hist = <<>> /\ given = {}
Advance(ev) ==
  LET r == Do(st, ev) IN
  /\ Len(r.st.cells) <= 3 * MaxH
  /\ st' = r.st /\ hist' = Append(hist, ev)
  /\ given' = (IF ev.op \in {"seed", "use"} THEN {x \in given : x[1] # st.hs[ev.h].c} ELSE given)
              \cup (IF ev.op \in {"draw", "gen", "raw", "addgen"} /\ r.err = ""
                    THEN {<<st.hs[ev.h].c, CellOf(st, ev.h).pos + d>> : d \in 0..(Len(r.vals) - 1)} ELSE {})
Emit == Gen /\ Len(hist) = Depth /\ PrintT("HIST " \o ToJson(hist)) /\ st' = st /\ hist' = Append(hist, "end") /\ given' = given
Next == Emit \/ (Len(hist) < Depth /\ \E ev \in Menu : Advance(ev))
NextGen == Emit \/ (Len(hist) < Depth /\ \E ev \in {RandomElement(Menu)} : Advance(ev))
View == <<st, given>>

Keys(v) == [q \in 1..Len(v) |-> v[q].key]
D(s, h) == Do(s, E("draw", h, h, 0, "", "", <<>>, "py"))
G(s, h, n) == Do(s, E("gen", h, h, n, "", "", <<>>, "py"))
\* drawing one by one, drawing an array, and discarding read the same stream
OneStream == \A h \in Hs : st.hs[h].k # "B" =>
  LET d1 == D(st, h) d2 == D(d1.st, h) g == G(st, h, 2)
      k == D(Do(st, E("discard", h, h, 1, "", "", <<>>, "py")).st, h) IN
  /\ g.vals = d1.vals \o d2.vals /\ g.st = d2.st
  /\ k.vals = d2.vals
\* linked handles read one stream, a duplicate continues where the original is
Linked == \A h \in Hs : \A j \in Hs : (st.hs[h].c = st.hs[j].c /\ st.hs[h].k = st.hs[j].k /\ st.hs[h].p = st.hs[j].p) =>
  D(st, h).vals = D(st, j).vals /\ D(D(st, h).st, j).vals = D(D(st, h).st, h).vals
DupContinues == \A h \in Hs : LET r == Do(st, E("dup", h, h, 0, "", "", <<>>, "duplicate")) n == Len(r.st.hs) IN
  D(r.st, n).vals = D(st, h).vals /\ D(D(r.st, h).st, n).vals = D(st, h).vals
\* nothing delivered twice from one stream: positions delivered lie behind the cell
NoReuse == \A x \in given : x[2] < st.cells[x[1]].pos
Inv == OneStream /\ Linked /\ DupContinues /\ NoReuse
\* a call moves only the streams it names
Frame == [][LET ev == hist'[Len(hist')] IN
   \A j \in Hs : (ev.h = 0 \/ (j # ev.h /\ st.hs[j].c # st.hs[ev.h].c)) =>
        st'.cells[st'.hs[j].c] = st.cells[st.hs[j].c] /\ st'.hs[j] = st.hs[j]]_vars
=============================================================================
