------------------------------ MODULE TraceReport ------------------------------
(* C07, C08, C09: sums of reports. An event has the inputs and the output, read  *)
(* from the files, each as [num, tab, pct, has]; a table is a sequence of rows   *)
(* <<key, count, missed, percentage, ...>> in the order of the report.           *)
EXTENDS TraceBase, BigInt, CharTable, CharClass
R == INSTANCE Report WITH Plus <- NatAdd, Zero <- <<>>
Table(rows) == [k \in {rows[i][1] : i \in DOMAIN rows} |->
                   LET i == CHOOSE i \in DOMAIN rows : rows[i][1] = k IN <<rows[i][2], rows[i][3]>>]
Distinct(rows) == Cardinality({rows[i][1] : i \in DOMAIN rows}) = Len(rows)
Abstract(r) == [num |-> r.num, tab |-> [t \in DOMAIN r.tab |-> Table(r.tab[t])]]

(* h, a percentage in hundredths, is num/den rounded (an exact tie either way) *)
Pct(h, num, den) == IF den = <<>> THEN h.none
                    ELSE /\ ~h.none
                         /\ LET d == ISub(IMul(h.v, MkInt(FALSE, den)), IMul(IntOf(10000), num))
                            IN NatLeq(NatScale(d.mag, 2), den)
Diff(a, b) == ISub(MkInt(FALSE, a), MkInt(FALSE, b))
Right(h, count, missed) == Pct(h, Diff(count, missed), count)
Rows(rows) == \A i \in DOMAIN rows : Right(rows[i][4], rows[i][2], rows[i][3])
Ascending(rows, Less(_, _)) == \A i \in 1..(Len(rows) - 1) : Less(rows[i], rows[i + 1])

Acc(r) ==
  LET n == r.num
  IN If("percent", /\ Pct(r.pct.acc, Diff(n.chars, n.errors), n.chars)
                   /\ Pct(r.pct.pmark, MkInt(FALSE, NatAdd(n.rejects, n.suspects)), n.chars)
                   /\ Pct(r.pct.pafter, Diff(n.chars, n.unmarked_errors), n.chars)
                   /\ Right(r.pct.total, n.count, n.missed)
                   /\ Rows(r.tab.class) /\ Rows(r.tab.char))
     \cup If("order", /\ Ascending(r.tab.char, LAMBDA x, y : x[1] < y[1])
                      /\ Ascending(r.tab.class, LAMBDA x, y : ClassRank(x[1]) < ClassRank(y[1]))
                      /\ Ascending(r.tab.conf, LAMBDA x, y : \/ NatLess(y[2], x[2])
                                                             \/ x[2] = y[2] /\ NatLess(y[3], x[3])
                                                             \/ x[2] = y[2] /\ x[3] = y[3] /\ SeqLess(x[1], y[1])))
     \cup If("display", \A i \in DOMAIN r.tab.char : r.tab.char[i][5] = ShownInline(r.tab.char[i][1]))
     \cup If("parts", r.has.conf = (n.errors # <<>>) /\ r.has.char = (n.chars # <<>>))
Wac(r) ==
  LET n == r.num
  IN If("percent", /\ Right(r.pct.acc, n.words, n.missed)
                   /\ Right(r.pct.stop, n.stop_count, n.stop_missed)
                   /\ Right(r.pct.non, n.non_count, n.non_missed)
                   /\ Right(r.pct.distinct, n.distinct_count, n.distinct_missed)
                   /\ \A t \in DOMAIN r.tab : Rows(r.tab[t]))
     \cup If("order", /\ \A t \in {"stop", "non", "distinct", "phrase"} : Ascending(r.tab[t], LAMBDA x, y : x[1] < y[1])
                      /\ \A t \in {"stopterm", "nonterm"} : Ascending(r.tab[t], LAMBDA x, y : SeqLess(x[1], y[1])))
     \cup If("parts", /\ r.has.phrase = (n.words # <<>>)
                      /\ r.has.stop = (n.stop_count # <<>>) /\ r.has.non = (n.non_count # <<>>))
Ed(r) == If("order", Ascending(r.tab.len, LAMBDA x, y : x[1] < y[1])) \cup If("parts", r.has.len = (r.num.moves # <<>>))
Shape(kind, r) == (CASE kind = "acc" -> Acc(r) [] kind = "wac" -> Wac(r) [] OTHER -> Ed(r))
                  \cup If("repeated-rows", \A t \in DOMAIN r.tab : Distinct(r.tab[t]))
Judge(e) ==
  IF e.st # "ok" THEN {e.st}
  ELSE LET want == R!SumReports([i \in DOMAIN e.ins |-> Abstract(e.ins[i])])
           got == Abstract(e.out)
       IN If("counts", got.num = want.num)
          \cup UNION {If("table-" \o t, got.tab[t] = want.tab[t]) : t \in DOMAIN want.tab}
          \cup Shape(e.kind, e.out)
          \cup If("differs-from-other-grouping", e.same)
TraceNext == l < Len(Log) /\ Consume(Judge(Log[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
