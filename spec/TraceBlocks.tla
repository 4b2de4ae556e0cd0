------------------------------ MODULE TraceBlocks ------------------------------
(* C24: word frequency lists of n words 0..n-1, word k occurring Times(k) times,  *)
(* in blocks of lines (first: number of lines before the block).                  *)
EXTENDS TraceBase, Integers
Times(e, k) == IF e.kind = "equal" THEN 1 ELSE 1 + (k % 3)
(* Position of word k, from 0, when sorted by decreasing Times, then k. *)
Under(k, r) == (k + 2 - r) \div 3          \* numbers below k that are r modulo 3
Rank(e, k) == IF e.kind = "equal" THEN k
              ELSE LET r == k % 3 IN (k \div 3) + (IF r < 2 THEN Under(e.n, 2) ELSE 0) + (IF r < 1 THEN Under(e.n, 1) ELSE 0)
Judge(e) ==
  IF e.st # "ok" THEN {e.st}
  ELSE If("counts", \A i \in DOMAIN e.rows : e.rows[i][2] = Times(e, e.rows[i][1]))
       \cup If("order", \A i \in DOMAIN e.rows : e.rows[i][1] < e.n /\ (IF e.list = 1 THEN e.rows[i][1] ELSE Rank(e, e.rows[i][1])) = e.first + i - 1)
       \cup If("complete", e.last => e.first + Len(e.rows) = e.n) \cup If("total", e.got = e.total)
TraceNext == l < Len(Log) /\ Consume(Judge(Log[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
