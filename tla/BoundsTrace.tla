---------------------------- MODULE BoundsTrace ----------------------------
(* Trace specification: recorded calls on real Bounds/Position objects.     *)
EXTENDS Bounds, TraceLib
VARIABLES l, st, dead

Init0 == <<>>                \* heap: sequence of values, handle = index
Lit(t) == [t |-> t]
Operand(h, x) == IF x > 0 /\ x <= Len(h) THEN h[x] ELSE Lax
A(h, ev) == IF Has(ev, "t") /\ ev.a = 0 THEN Lit(ev.t) ELSE Operand(h, ev.a)
B(h, ev) == IF ev.b = 0 /\ Has(ev, "tb") THEN Lit(ev.tb) ELSE IF ev.b = 0 THEN Lit("-") ELSE Operand(h, ev.b)

IsQuery(op) == op \in {"q_incxy", "q_incpos", "q_incb", "q_eq", "q_shape", "q_again"}
Step(h, ev) ==
  LET a == A(h, ev) b == B(h, ev) IN
  IF a.t \in {"LAX", "ERR"} \/ b.t \in {"LAX", "ERR"} THEN
     [st |-> IF IsQuery(ev.op) THEN h ELSE Append(h, Lax), exp |-> <<>>, err |-> "?",
      tol |-> Exact, clause |-> ev.op]
  ELSE IF IsQuery(ev.op) THEN Ok(h, Query(ev.op, a, b, ev.n), Loose, ev.op \o "/" \o ev.mode)
  ELSE LET v == Apply(ev.op, a, b, ev.n) IN
       IF v.t = "ERR" THEN Err(Append(h, v), IF ev.mode \in {"jnp", "jit", "vmap"} THEN "any" ELSE v.e, ev.op \o "/" \o ev.mode)
       ELSE IF v.t = "LAX" \/ (ev.lax = "T" /\ v.t \in {"BI","BD"} /\ ~v.def) THEN
            [st |-> Append(h, Lax), exp |-> <<>>, err |-> "?", tol |-> Exact, clause |-> ev.op]
       ELSE Ok(Append(h, v), Proj(v), Loose, ev.op \o "/" \o ev.mode)

TInit == l = 1 /\ st = Init0 /\ dead = FALSE
TNext ==
  /\ l <= Len(Tr) /\ l' = l + 1
  /\ LET ev == Tr[l] IN
     IF ev.op = "reset" THEN st' = Init0 /\ dead' = FALSE
     ELSE IF dead THEN UNCHANGED <<st, dead>>
     ELSE LET r == Step(st, ev) IN LET ok == Matches(r, ev) IN
          st' = r.st /\ dead' = ~ok /\ (IF ok THEN TRUE ELSE Report(l, r, ev))
  /\ (l = Len(Tr) => PrintT("DONE " \o ToString(l)))
=============================================================================
