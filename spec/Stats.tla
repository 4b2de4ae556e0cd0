--------------------------------- MODULE Stats ---------------------------------
(* Figures computed from reports: accuracy distributions, confidence intervals, *)
(* edit cost curves, accuracy without stopwords. Numbers are BigInt's.          *)
EXTENDS BigInt, FiniteSets

(* A percentage in hundredths ([none, v]) is num/den (an exact tie rounded      *)
(* either way); num is an integer, den a natural.                               *)
Pct(h, num, den) == IF den = <<>> THEN h.none
                    ELSE /\ ~h.none
                         /\ LET d == ISub(IMul(h.v, MkInt(FALSE, den)), IMul(IntOf(10000), num))
                            IN NatLeq(NatScale(d.mag, 2), den)
N(x) == MkInt(FALSE, x)
Diff(a, b) == ISub(N(a), N(b))
NatSum(s) == FoldLeft(NatAdd, <<>>, s)

(***************************************************************************)
(* C10. obs: sequence of <<count, missed>> or of <<count, missed, k>> (k    *)
(* reports of these numbers).                                              *)
(***************************************************************************)
Mult(o) == IF Len(o) = 3 THEN o[3] ELSE 1
Times(o, i) == IF Len(o) = 3 THEN NatMul(o[i], NatOf(o[3])) ELSE o[i]
Number(obs) == FoldLeft(LAMBDA a, o : a + Mult(o), 0, obs)
AtLeast(o, i) == ILeq(IMul(IntOf(i), N(o[1])), IMul(IntOf(100), Diff(o[1], o[2])))
Share(obs, i) == NatSum([k \in DOMAIN obs |-> IF AtLeast(obs[k], i) THEN Times(obs[k], 1) ELSE <<>>])
Counts(obs) == NatSum([k \in DOMAIN obs |-> Times(obs[k], 1)])
Missed(obs) == NatSum([k \in DOMAIN obs |-> Times(obs[k], 2)])
DistLine(obs, i, h) == Pct(h, N(Share(obs, i)), Counts(obs))

(***************************************************************************)
(* C11. With n observations, T = theta * M and Ti[i] = theta_i * M for a    *)
(* common denominator M; J * n * M = JJ; (w * n * M)^2 * 10^4 * n =         *)
(* 196^2 * (n - 1) * SS. Bounds are compared without roots or quotients.   *)
(***************************************************************************)
NonEmpty(obs) == Number(SelectSeq(obs, LAMBDA o : o[1] # <<>>))
Prod(s) == FoldLeft(NatMul, <<1>>, s)
Jackknife(obs) ==
  LET n == Number(obs)
      C == Counts(obs)
      E == Missed(obs)
      d == [i \in DOMAIN obs |-> NatSub(C, obs[i][1])]
      others == [i \in DOMAIN obs |-> Prod([k \in DOMAIN obs |-> IF k = i THEN <<1>> ELSE d[k]])]
      all == Prod(d)
      M == NatMul(C, all)
      T == IMul(IMul(IntOf(100), Diff(C, E)), N(all))
      Ti == [i \in DOMAIN obs |-> IMul(IMul(IMul(IntOf(100), Diff(d[i], NatSub(E, obs[i][2]))), N(others[i])), N(C))]
      K == [i \in DOMAIN obs |-> IntOf(Mult(obs[i]))]
      ST == ISum([i \in DOMAIN obs |-> IMul(K[i], Ti[i])])
      JJ == ISub(IMul(IMul(IntOf(n), IntOf(n)), T), IMul(IntOf(n - 1), ST))
      SS == ISum([i \in DOMAIN obs |-> LET q == ISub(IMul(IntOf(n), Ti[i]), ST) IN IMul(K[i], IMul(q, q))])
  IN [n |-> n, M |-> M, JJ |-> JJ,
      W |-> IMul(IMul(IMul(IntOf(38416), IntOf(n - 1)), SS), IMul(IntOf(100000), IntOf(100000)))]   \* 10^14 (wnM)^2 n
(* x given as X = x * n * M * 10^7 *)
WAtMost(j, X) == ISign(X) >= 0 /\ ILeq(j.W, IMul(IntOf(j.n), IMul(X, X)))
WAtLeast(j, X) == ISign(X) <= 0 \/ ILeq(IMul(IntOf(j.n), IMul(X, X)), j.W)
(* J - b + s*delta, times n * M * 10^7; b in hundredths, delta = 0.0050001 *)
FromJ(j, b, s) == IAdd(IMul(j.JJ, IntOf(10000000)),
                       IMul(IMul(IntOf(j.n), N(j.M)), ISub(IntOf(s * 50001), IMul(b, IntOf(100000)))))
LowerIs(j, b) == /\ (ISign(b) > 0 => WAtMost(j, FromJ(j, b, 1)))
                 /\ (ILess(b, IntOf(10000)) => WAtLeast(j, FromJ(j, b, -1)))
                 /\ ISign(b) >= 0 /\ ILeq(b, IntOf(10000))
UpperIs(j, b) == /\ (ILess(b, IntOf(10000)) => WAtMost(j, INeg(FromJ(j, b, -1))))
                 /\ (ISign(b) > 0 => WAtLeast(j, INeg(FromJ(j, b, 1))))
                 /\ ISign(b) >= 0 /\ ILeq(b, IntOf(10000))

(***************************************************************************)
(* C18. moves: sequence of <<length, count>>.                              *)
(***************************************************************************)
Cost(ins, moves, t) ==
  NatAdd(ins, NatSum([k \in DOMAIN moves |-> NatScale(moves[k][2], IF moves[k][1] < t THEN moves[k][1] ELSE t)]))

(***************************************************************************)
(* C22. terms: function from a word to <<count, missed>> (all listed words).*)
(***************************************************************************)
Remaining(count, terms, dropped) == NatSub(count, NatSum([k \in DOMAIN terms |-> IF terms[k][1] \in dropped THEN terms[k][2] ELSE <<>>]))
RemainingMissed(missed, terms, dropped) == NatSub(missed, NatSum([k \in DOMAIN terms |-> IF terms[k][1] \in dropped THEN terms[k][3] ELSE <<>>]))
=============================================================================
