---------------------------- MODULE ImageTrace ----------------------------
(* Validates recorded image histories.  ev.f lists the handles whose full   *)
(* projection was recorded after the call ("all" handles for isolation).    *)
EXTENDS ImageSpec, TraceLib
VARIABLES l, st, dead

RECURSIVE ProjSome(_, _, _)
ProjSome(h, f, i) == IF i > Len(f) THEN <<>>
  ELSE (IF f[i] <= Len(h) THEN Proj(h[f[i]]) ELSE <<>>) \o ProjSome(h, f, i + 1)

Step(h, ev) ==
  LET r == Do(h, ev) IN
  IF r.err = "?" THEN [st |-> h, exp |-> <<>>, err |-> "?", tol |-> Exact, clause |-> ev.op]
  ELSE [st |-> r.h, exp |-> <<r.err>> \o r.out \o ProjSome(r.h, ev.f, 1), err |-> "",
        tol |-> <<ev.tol, ev.tol>>,
        clause |-> ev.op \o "." \o ev.s \o "/" \o ev.mode]

TInit == l = 1 /\ st = <<>> /\ dead = FALSE
TNext ==
  /\ l <= Len(Tr) /\ l' = l + 1
  /\ LET ev == Tr[l] IN
     IF ev.op = "reset" THEN st' = <<>> /\ dead' = FALSE
     ELSE IF dead THEN UNCHANGED <<st, dead>>
     ELSE LET r == Step(st, ev) IN LET ok == Matches(r, ev) IN
          st' = r.st /\ dead' = ~ok /\ (IF ok THEN TRUE ELSE Report(l, r, ev))
  /\ (l = Len(Tr) => PrintT("DONE " \o ToString(l)))
=============================================================================
