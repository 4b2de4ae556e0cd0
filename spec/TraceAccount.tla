------------------------------ MODULE TraceAccount ------------------------------
(* C02, C03: an accuracy report judged against the alignment of the two texts,  *)
(* which synctext shows as the lengths of its segments (e.segs: matched?,        *)
(* length of the correct side, length of the generated side).                   *)
EXTENDS TraceBase, Account
Cut(t, n, used) == SubSeq(t, used + 1, used + n)
Segments(e, a, b) ==
  FoldLeft(LAMBDA x, s : [out |-> Append(x.out, [m |-> s[1], a |-> Cut(a, s[2], x.i), b |-> Cut(b, s[3], x.j)]),
                          i |-> x.i + s[2], j |-> x.j + s[3]],
           [out |-> <<>>, i |-> 0, j |-> 0], e.segs)
Ops(o) == <<o.ins, o.subst, o.del, o.errors>>
Totals(r, acc) ==
  If("characters", r.chars = acc.chars) \cup If("errors", r.errors = acc.errors)
  \cup If("accuracy", PctIs(r.acc, acc.chars - acc.errors, acc.chars))
  \cup If("rejects", r.rejects = acc.rejects) \cup If("suspects", r.suspects = acc.suspects)
  \cup If("false-marks", r.false = acc.false)
  \cup If("percent-marked", PctIs(r.pmark, acc.rejects + acc.suspects, acc.chars))
  \cup If("after-correction", PctIs(r.pafter, acc.chars - acc.unmarked.errors, acc.chars))
  \cup If("operations", r.ops = <<Ops(acc.marked), Ops(acc.unmarked), Ops(Total(acc))>>)
ClassTable(r, acc) ==
  LET want == {<<n, ClassCount(acc, n, 1), ClassCount(acc, n, 2)>> : n \in ClassesIn(acc)}
      got == {<<x[1], x[2], x[3]>> : x \in ToSet(r.classes)}
  IN If("class-counts", got = want /\ Len(r.classes) = Cardinality(want))
     \cup If("class-order", \A i \in 1..(Len(r.classes) - 1) : ClassRank(r.classes[i][1]) < ClassRank(r.classes[i + 1][1]))
     \cup If("class-total", r.total[1] = acc.chars /\ r.total[2] = CharTotal(acc, 2))
     \cup If("class-percent", /\ \A i \in DOMAIN r.classes : PctIs(r.classes[i][4], r.classes[i][2] - r.classes[i][3], r.classes[i][2])
                              /\ PctIs(r.total[3], acc.chars - CharTotal(acc, 2), acc.chars))
CharTable_(r, acc) ==
  LET cs == SetToSortSeq(DOMAIN acc.char, <)
  IN If("characters-table", [i \in DOMAIN r.rows |-> <<r.rows[i][4], r.rows[i][1], r.rows[i][2]>>]
                             = [i \in DOMAIN cs |-> <<ShownInline(cs[i]), acc.char[cs[i]][1], acc.char[cs[i]][2]>>])
     \cup If("characters-percent", \A i \in DOMAIN r.rows : PctIs(r.rows[i][3], r.rows[i][1] - r.rows[i][2], r.rows[i][1]))
     \cup If("characters-heading", r.hasrows = (acc.chars > 0))
Confusions(r, acc) ==
  LET want == {<<acc.conf[k][1], acc.conf[k][2], k>> : k \in DOMAIN acc.conf}
  IN If("confusion-counts", ToSet(r.conf) = want /\ Len(r.conf) = Cardinality(want))
     \cup If("confusion-order", \A i \in 1..(Len(r.conf) - 1) : ConfLess(r.conf[i], r.conf[i + 1]))
     \cup If("confusion-heading", r.hasconf = (acc.errors > 0))
     \cup If("confusion-sums", SumSeq([i \in DOMAIN r.conf |-> r.conf[i][1]]) = r.errors
                               /\ SumSeq([i \in DOMAIN r.conf |-> r.conf[i][2]]) = r.ops[1][4])
Judge(e) ==
  IF e.st # "ok" THEN {e.st}
  ELSE LET a == ReadText(e.a)
           b == ReadText(e.b)
           s == Segments(e, a, b)
           acc == AccountOf(s.out)
       IN IF s.i # Len(a) \/ s.j # Len(b) THEN {"alignment-incomplete"}
          ELSE If("inconsistent-account", Consistent(acc))
               \cup (IF e.only = "C02" THEN Totals(e.rep, acc) \cup ClassTable(e.rep, acc) \cup CharTable_(e.rep, acc)
                     ELSE Confusions(e.rep, acc))
TraceNext == l < Len(Log) /\ Consume(Judge(Log[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
