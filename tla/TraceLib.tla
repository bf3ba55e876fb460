------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* Shared pieces of every trace specification: the recorded trace, and the *)
(* total verdict.  A trace specification supplies                          *)
(*    Step(st, ev) = [st  : the specification's next state,                *)
(*                    exp : expected observation, a sequence of strings,   *)
(*                    err : "" or the name of the error class required,    *)
(*                    tol : <<rtol, atol>>,                                *)
(*                    clause : name of the clause that decides this event] *)
(* An event records obs (sequence of strings) and err (sequence of class   *)
(* names, empty when the call returned).                                   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils, Num

Tr == ndJsonDeserialize(IOEnv.VTRACE)

Has(r, f) == f \in DOMAIN r
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x

\* "any" as the expected error accepts any raised error; "?" accepts anything
Matches(r, ev) ==
  IF r.err = "?" THEN TRUE
  ELSE IF r.err # "" THEN /\ Len(ev.err) > 0
                          /\ (r.err = "any" \/ InSeq(r.err, ev.err))
  ELSE /\ Len(ev.err) = 0
       /\ SeqClose(r.exp, ev.obs, r.tol[1], r.tol[2])

Short(s) == IF Len(s) > 40 THEN SubSeq(s, 1, 40) ELSE s
FirstDiff(r, ev) ==
  IF r.err # "" \/ Len(ev.err) > 0 \/ Len(r.exp) # Len(ev.obs) THEN 0
  ELSE CHOOSE i \in 1..Len(r.exp) :
         /\ ~Close(r.exp[i], ev.obs[i], r.tol[1], r.tol[2])
         /\ \A j \in 1..(i-1) : Close(r.exp[j], ev.obs[j], r.tol[1], r.tol[2])

Report(l, r, ev) ==
  LET d == FirstDiff(r, ev) IN
  PrintT("BAD " \o ToJson([line |-> l, clause |-> r.clause, op |-> ev.op,
     wanterr |-> r.err, goterr |-> Short(ev.err),
     at |-> d,
     want |-> IF d > 0 THEN <<r.exp[d]>> ELSE Short(r.exp),
     got  |-> IF d > 0 THEN <<ev.obs[d]>> ELSE Short(ev.obs)]))

Ok(st, exp, tol, clause) ==
  [st |-> st, exp |-> exp, err |-> "", tol |-> tol, clause |-> clause]
Err(st, e, clause) ==
  [st |-> st, exp |-> <<>>, err |-> e, tol |-> <<"0","0">>, clause |-> clause]
Exact == <<"0", "0">>
Tight == <<"1e-12", "1e-12">>
Loose == <<"1e-9", "1e-9">>
=============================================================================
