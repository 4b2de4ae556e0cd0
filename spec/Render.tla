-------------------------------- MODULE Render --------------------------------
(* Synchronized text output, byte by byte.                                      *)
EXTENDS Sync, CharTable
Repeat(b, n) == [i \in 1..n |-> b]
Rule79 == Repeat(61, 79) \o <<NL>>
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Decimal(n \div 10), 48 + (n % 10))
Placeholder(k) == <<123>> \o Decimal(k) \o <<125>>
Padded(name, w) == name \o Repeat(32, w - Len(name))
Width(names) == MaxSeq([t \in DOMAIN names |-> Len(names[t])])
(* number of unmatched segments among the first k *)
Gaps(segs, k) == Cardinality({j \in 1..k : ~segs[j].m})
(* A matched character is suspect if it is in any of the texts. *)
MatchedText(T, s, marks) ==
  FlattenSeq([i \in 1..SegLen(s, 1) |-> ShownMarked(Ch(T[1][s.lo[1] + i - 1].v, \E t \in DOMAIN T : T[t][s.lo[t] + i - 1].s), marks)])
Matches(T, segs, marks) == FlattenSeq([k \in DOMAIN segs |-> IF segs[k].m THEN MatchedText(T, segs[k], marks) ELSE Placeholder(Gaps(segs, k))])
(* The content of a text in a segment; lines after the first are indented by w + 2. *)
Content(T, s, t, w, marks) ==
  FlattenSeq([i \in 1..SegLen(s, t) |-> LET c == T[t][s.lo[t] + i - 1] IN ShownMarked(c, marks) \o (IF c.v = NL THEN Repeat(32, w + 2) ELSE <<>>)])
Labelled(T, names, s, marks) == FlattenSeq([t \in DOMAIN T |-> Padded(names[t], Width(names)) \o <<32, 123>> \o Content(T, s, t, Width(names), marks) \o <<125, NL>>])
Difference(T, names, segs, k, marks) == Rule79 \o Placeholder(Gaps(segs, k)) \o <<NL>> \o Labelled(T, names, segs[k], marks)
Synctext(T, names, segs, marks) ==
  Rule79 \o <<NL>> \o Matches(T, segs, marks) \o <<NL>>
  \o FlattenSeq([k \in DOMAIN segs |-> IF segs[k].m THEN <<>> ELSE Difference(T, names, segs, k, marks)]) \o Rule79
(* Transposed form of one text; ps: sequence of <<number, length>>. *)
Starts(ps) == [k \in DOMAIN ps |-> 1 + SumSeq([j \in 1..(k - 1) |-> ps[j][2]])]
Transposition(t, ps, marks) ==
  LET at == Starts(ps)
      Body(k) == FlattenSeq([i \in 1..ps[k][2] |-> ShownMarked(t[at[k] + i - 1], marks)])
  IN Rule79 \o <<NL>> \o FlattenSeq([k \in DOMAIN ps |-> IF ps[k][1] = 0 THEN Body(k) ELSE <<123>> \o Decimal(ps[k][1]) \o <<58>> \o Body(k) \o <<125>>]) \o <<NL>>
TransposedText(T, px, py, marks) == Transposition(T[1], px, marks) \o Transposition(T[2], py, marks) \o Rule79
=============================================================================
