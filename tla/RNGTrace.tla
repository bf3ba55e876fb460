------------------------------ MODULE RNGTrace ------------------------------
(* Recorded calls on real generators.  memo: what each key has delivered.    *)
EXTENDS RNGSpec, TraceLib
VARIABLES l, st, dead

S0 == [rng |-> Init0, memo |-> [k \in {} |-> "0"], ser |-> [k \in {} |-> "0"]]

\* base value behind an observation
Base(v, o) == Div(Sub(o, v.b), v.a)
Known(s, v) == v.key \in DOMAIN s.memo
ExpVals(s, vals, obs) ==
  [q \in 1..Len(vals) |->
     IF Known(s, vals[q]) THEN Add(vals[q].b, Mul(vals[q].a, s.memo[vals[q].key]))
     ELSE IF NEq(vals[q].a, "0") THEN vals[q].b
     ELSE IF q <= Len(obs) /\ Finite(obs[q]) /\ InRange(vals[q].k, Base(vals[q], obs[q])) THEN obs[q]
     ELSE "value-in-range-of-" \o vals[q].k]
Learn(s, vals, obs) ==
  IF Len(vals) # Len(obs) THEN s.memo
  ELSE LET new == {q \in 1..Len(vals) : ~Known(s, vals[q]) /\ ~NEq(vals[q].a, "0") /\ Finite(obs[q])} IN
       [k \in {vals[q].key : q \in new} \cup DOMAIN s.memo |->
          IF k \in DOMAIN s.memo THEN s.memo[k]
          ELSE LET q == CHOOSE q \in new : vals[q].key = k IN Base(vals[q], obs[q])]

SKey(c) == c.seed \o "|" \o N(c.pos)
\* the serialised state is a function of the stream position, injective where the position is known
Placed(key) == \A q \in 1..Len(key) : SubSeq(key, q, q) # "~"
SerExp(s, c, o) ==
  IF SKey(c) \in DOMAIN s.ser THEN s.ser[SKey(c)]
  ELSE IF Placed(SKey(c)) /\ \E k \in DOMAIN s.ser : Placed(k) /\ s.ser[k] = o THEN "fresh-state" ELSE o
PermOK(s, key, n, o) ==   \* o = the permutation (1-based), repeated for each array
  IF key \in DOMAIN s.memo THEN o = s.memo[key]
  ELSE Len(o) = n /\ {o[q] : q \in 1..Len(o)} = {N(q) : q \in 1..n}

Step(s, ev) ==
  LET r == Do(s.rng, ev) cl == ev.op \o "/" \o ev.how IN
  IF ev.h > Len(s.rng.hs) \/ ev.g > Len(s.rng.hs) THEN [st |-> s, exp |-> <<>>, err |-> "?", tol |-> Exact, clause |-> cl]
  ELSE IF ev.op = "ser" THEN
    LET c == CellOf(s.rng, ev.h) e == SerExp(s, c, ev.obs[1]) IN
    Ok([s EXCEPT !.ser = [k \in DOMAIN @ \cup {SKey(c)} |-> IF k = SKey(c) THEN ev.obs[1] ELSE @[k]]],
       <<e>>, Exact, cl)
  ELSE IF ev.op = "eq" THEN
    LET b == Same(s.rng, ev.h, ev.g) IN Ok(s, <<IF b THEN "T" ELSE "F", IF b THEN "F" ELSE "T">>, Exact, cl)
  ELSE IF ev.op = "params" THEN
    Ok(s, <<s.rng.hs[ev.h].k>> \o s.rng.hs[ev.h].p, Loose, cl)
  ELSE IF ev.op = "permute" THEN
    LET key == "perm:" \o N(ev.n) \o "|" \o SKey(CellOf(s.rng, ev.h)) IN
    IF Len(ev.err) = 0 /\ Len(ev.obs) = 2 * ev.n
       /\ LET p1 == SubSeq(ev.obs, 1, ev.n) IN
          p1 = SubSeq(ev.obs, ev.n + 1, 2 * ev.n) /\ PermOK(s, key, ev.n, p1)
    THEN [st |-> [s EXCEPT !.rng = r.st, !.memo = [k \in DOMAIN @ \cup {key} |-> IF k = key THEN SubSeq(ev.obs, 1, ev.n) ELSE @[k]]],
          exp |-> ev.obs, err |-> "", tol |-> Exact, clause |-> cl]
    ELSE Ok(s, <<"one-permutation-of-all-arrays">>, Exact, cl)
  ELSE IF ev.op = "dist" THEN
    Ok([s EXCEPT !.rng = Move(s.rng, ev.h, ev.n)],
       IF Len(ev.obs) = 4 /\ DistOK(s.rng.hs[ev.h].k, s.rng.hs[ev.h].p, N(ev.n), ev.obs) THEN ev.obs
       ELSE <<"mean", Mean(s.rng.hs[ev.h].k, s.rng.hs[ev.h].p), "var", Var(s.rng.hs[ev.h].k, s.rng.hs[ev.h].p)>>, Exact, cl)
  ELSE IF r.err # "" THEN Err([s EXCEPT !.rng = r.st], r.err, cl)
  ELSE [st |-> [s EXCEPT !.rng = r.st, !.memo = IF Len(r.vals) > 0 /\ Len(ev.err) = 0 THEN Learn(s, r.vals, ev.obs) ELSE @],
        exp |-> ExpVals(s, r.vals, ev.obs), err |-> "", tol |-> Loose, clause |-> cl]

TInit == l = 1 /\ st = S0 /\ dead = FALSE
TNext ==
  /\ l <= Len(Tr) /\ l' = l + 1
  /\ LET ev == Tr[l] IN
     IF ev.op = "reset" THEN st' = S0 /\ dead' = FALSE
     ELSE IF dead THEN UNCHANGED <<st, dead>>
     ELSE LET r == Step(st, ev) IN LET ok == Matches(r, ev) IN
          st' = r.st /\ dead' = ~ok /\ (IF ok THEN TRUE ELSE Report(l, r, ev))
  /\ (l = Len(Tr) => PrintT("DONE " \o ToString(l)))
=============================================================================
