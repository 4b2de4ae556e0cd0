-------------------------------- MODULE Report --------------------------------
(* Reports as things that can be added: named counts, and tables that map keys *)
(* to a pair of counts. The sum of reports is pointwise. The numbers are a     *)
(* parameter: TLC's integers when the algebra is model-checked, BigInt's       *)
(* naturals when reports of the tools are judged.                              *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets
CONSTANTS Plus(_, _), Zero
SumNum(x, y) == [n \in DOMAIN x |-> Plus(x[n], y[n])]
At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE <<Zero, Zero>>
SumTable(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> <<Plus(At(f, k)[1], At(g, k)[1]), Plus(At(f, k)[2], At(g, k)[2])>>]
SumReport(x, y) == [num |-> SumNum(x.num, y.num), tab |-> [t \in DOMAIN x.tab |-> SumTable(x.tab[t], y.tab[t])]]
NothingLike(x) == [num |-> [n \in DOMAIN x.num |-> Zero], tab |-> [t \in DOMAIN x.tab |-> <<>>]]
SumReports(s) == FoldLeft(SumReport, NothingLike(s[1]), s)
=============================================================================
