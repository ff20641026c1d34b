----------------------------- MODULE TrThermal -----------------------------
(* Recorded Fermi-function poles, occupations (P21) and regularised          *)
(* integrals (P26).                                                          *)
EXTENDS Observe, Thermal

VARIABLES l, bad

(* The rational function with these poles and weights is the n-th            *)
(* approximant of the Fermi function: they agree at more points than its     *)
(* degree.                                                                   *)
PoleFails(e) ==
   IF Len(e.z) # e.n \/ Len(e.R) # e.n THEN {"count"}
   ELSE Failing(<< <<"positive", \A i \in DOMAIN e.z : RLt(0, e.z[i])>>,
                   <<"ascending", \A i \in 1..(e.n - 1) : RLt(e.z[i], e.z[i+1])>>,
                   <<"fermi-function", \A i \in DOMAIN e.x :
                       RRel(RAdd("1/2", RSum([j \in DOMAIN e.z |->
                               RDiv(RMul(RMul(2, e.R[j]), e.x[i]), RAdd(RMul(e.x[i], e.x[i]), RMul(e.z[j], e.z[j])))])),
                            FermiCF(e.x[i], e.n), "1e-11")>> >>)

OccupationFails(e) ==
   LET beta == BetaOf(e.T)
       R2 == RMul(e.R, e.R)
       x == TLCEval([j \in DOMAIN e.l |-> RMul(beta, RSub(e.l[j], e.mu))])
       arc == TLCEval([j \in DOMAIN e.l |-> RDiv(R2, RAdd(R2, RMul(e.l[j], e.l[j])))])
       cf == RSum([j \in DOMAIN e.q |-> RMul(e.q[j], RSub(RDiv(arc[j], 2), RDiv(TanhCF(RDiv(x[j], 2), 2 * e.n), 2)))])
       exact == RSum([j \in DOMAIN e.q |-> RMul(e.q[j], RAdd(Fermi(x[j]), RDiv(RSub(arc[j], 1), 2)))])
   IN Failing(<< <<"approximant", RRel(e.out, cf, "1e-7")>>,
                 <<"thermal-occupation", (\A j \in DOMAIN x : RLe(RAbs(x[j]), 2 * e.n)) => RRel(e.out, exact, "1e-6")>> >>)

MatsubaraFails(e) ==
   LET w == RDiv(RMul(2 * e.n - 1, RPi), e.beta)
       err(l1) == LET m == RAdd("1/10", RMaxSeq([j \in DOMAIN l1 |-> RAbs(RSub(l1[j], e.mu))]))
                  IN RAdd("1e-9", RDiv(RMul(RMul(m, m), m), RMul(RMul(w, w), w)))
   IN IF Len(e.out) # Len(e.l) THEN {"count"}
      ELSE Failing(<< <<"matsubara-occupation", \A c \in DOMAIN e.l :
                          RNear(e.out[c], RSum([j \in DOMAIN e.q[c] |-> RMul(e.q[c][j], Fermi(RMul(e.beta, RSub(e.l[c][j], e.mu))))]), err(e.l[c]))>>,
                      <<"chemical-potential-restored", e.restored>> >>)

(* Results are compared on the scale of the sum of the moduli of their terms *)
(* (each is known to the relative precision of its digamma differences).     *)
IntegralFails(e) ==
   LET m1 == R(e.mu[1])
       m2 == R(e.mu[2])
       v == TLCEval(IF e.fn = "square" THEN SquaredSum(e.a, e.e, m1, m2, e.beta)
            ELSE RMul(RMul(e.a[1], e.a[2]), Cross2(R(e.e[1]), R(e.e[2]), m1, m2, e.beta)))
       big == RAdd(RAbs(v), RMul(Len(e.a), RSum([i \in DOMAIN e.a |-> RAbs(RMul(RMul(e.a[i], e.a[i]), Square2(R(e.e[i]), m1, m2, e.beta)))])))
       a2 == RSum([i \in DOMAIN e.a |-> RMul(e.a[i], e.a[i])])
       x == RMul(e.beta, RSub(m2, m1))
       sc == RMul(RMul(a2, e.beta), RAdd(XBose(x), 0))
   IN Failing(<< <<"integral", RNear(e.out, v, RAdd(RAdd("1e-45", RMul("3e-6", big)), RMul("1e-11", sc)))>> >>)

Fails(e) == CASE e.op = "fermi" -> PoleFails(e)
              [] e.op = "occupation" -> OccupationFails(e)
              [] e.op = "matsubara" -> MatsubaraFails(e)
              [] e.op = "integral" -> IntegralFails(e)
              [] e.op = "case" -> {}
              [] OTHER -> Broken(e) \cup (IF e.op \in {"raised", "died"} THEN {} ELSE {"unknown-event"})

Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Log)
        /\ bad' = Note(bad, l, Fails(Log[l]))
        /\ l' = l + 1
        /\ Publish(bad', l)
=============================================================================
