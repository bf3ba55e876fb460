-------------------------------- MODULE ShootMC -------------------------------
(* How a drawing spends its photons, batch after batch, over all budgets. *)
EXTENDS Shoot
CONSTANTS Big
VARIABLES ph, plan, left, cap, rounds, kept, weights
vars == <<ph, plan, left, cap, rounds, kept, weights>>

Fluxes == {"7", "-7", "2.5", "12.25", "0.3"} \cup (IF Big THEN {"33", "-0.75", "19.5"} ELSE {})
Etas == {"0", "0.125", "0.25"} \cup (IF Big THEN {"0.4"} ELSE {})
Extra == {"0", "0.5"} \cup (IF Big THEN {"2", "0.1"} ELSE {})
Sbs == {"0.5", "4"}
Gains == {"1", "2"}
Caps == {1, 2, 3, 5, 100} \cup (IF Big THEN {4, 7} ELSE {})
Ns == {"", "0", "1", "3", "6.6"} \cup (IF Big THEN {"9", "2.4"} ELSE {})
Pois == {"-", "0", "3", "8"}
Kw(n, nu) == (IF n = "" THEN <<>> ELSE <<<<"n_photons", n>>>>) \o <<<<"max_extra_noise", nu>>>>
Void0 == [f |-> "0"]

Init == ph = "new" /\ plan = Void0 /\ left = 0 /\ cap = 1 /\ rounds = 0 /\ kept = 0 /\ weights = {}
(* e: net flux of a photon of size one; v: the Poisson number drawn, "-" for none *)
Budget == ph = "new" /\ \E f \in Fluxes, eta \in Etas, nu \in Extra, sb \in Sbs, g \in Gains, n \in Ns, v \in Pois, k \in Caps :
  LET kw == Kw(n, nu) e == Sub("1", Mul("2", eta)) size == Div(f, e)
      c == IF n # "" THEN "1" ELSE Add("1", Div(nu, sb))
      mean == Mul(Sq(e), Abs(f))
      r == IF v = "-" THEN "1" ELSE Div(Add(Sub(v, mean), Abs(f)), Abs(f))
      z == Wanted(f, e, c, kw, r) m == Whole(z) IN
  /\ ~Lt(r, "0")
  /\ plan' = [f |-> f, e |-> e, nu |-> nu, sb |-> sb, gain |-> g, given |-> n # "", r |-> r, size |-> size, c |-> c, z |-> z, n |-> I(m),
              each |-> IF m = "0" THEN "0" ELSE Share(size, c, g, r, m)]
  /\ left' = I(m) /\ cap' = k /\ ph' = "shooting" /\ UNCHANGED <<rounds, kept, weights>>
Round1 == ph = "shooting" /\ left > 0 /\
  LET this == Batch(left, cap) IN
  /\ left' = left - this /\ kept' = kept + this /\ rounds' = rounds + 1
  /\ weights' = weights \cup {Kept(plan.size, cap, this, plan.n, Div(Mul(plan.c, plan.r), plan.gain))}
  /\ UNCHANGED <<ph, plan, cap>>
Finish == ph = "shooting" /\ left = 0 /\ ph' = "done" /\ UNCHANGED <<plan, left, cap, rounds, kept, weights>>
Next == Budget \/ Round1 \/ Finish
Spec == Init /\ [][Next]_vars

S(a, b) == Close(a, b, "1e-9", "1e-9")
Done == ph = "done"
\* every photon of every batch weighs the same, whatever the batches
Even == \A w \in weights : S(w, plan.each)
\* all of them are shot, in as few batches as there must be
All == Done => kept = plan.n /\ rounds = (plan.n + cap - 1) \div cap
\* together they bring the flux asked for, times the Poisson number, over the gain
Brought == (Done /\ kept > 0) => S(Mul(Mul(N(kept), plan.each), plan.e), Div(Mul(Mul(plan.f, plan.r), plan.c), plan.gain))
\* without a number given and nothing to hide the noise in, a photon is the
\* electrons the gain makes of it, up to the rounding of their number
Unit == (Done /\ kept > 0 /\ ~plan.given) =>
          Close(Abs(plan.each), Div(Mul(Sq(plan.c), plan.e), plan.gain), Mul("1.001", Div("0.5", N(kept))), "1e-9")
\* no number of photons is too few by more than a half, none is negative
Near == ph # "new" => plan.n >= 0 /\ Le(Abs(Sub(plan.z, N(plan.n))), "0.5")
\* counting noise of a sum of components: each gets, on average, its own flux
Sizes0 == {<<"3", "4">>, <<"0.5", "7", "2">>, <<"-2", "-5">>, <<"4", "-1">>, <<"-3", "2", "6">>}
Shared == ph # "new" \/ \A s \in Sizes0 : \A n \in {"1", "6"} :
            /\ \A i \in 1..Len(s) : S(Mul(Mul(Chance(s, i), n), Brings(s, i, n)), s[i])
            /\ S(NSum([i \in 1..Len(s) |-> Chance(s, i)]), "1")
Inv == Even /\ All /\ Brought /\ Unit /\ Near /\ Shared
=============================================================================
