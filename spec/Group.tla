--------------------------------- MODULE Group ---------------------------------
(* C25: a group is a normalised text (code points); a report has the rows        *)
(* <<code point, count, missed>>, at most one of each code point.                *)
EXTENDS Integers, Sequences, SequencesExt
Listed(group, rows) == LET s == {rows[i][1] : i \in DOMAIN rows} IN SelectSeq(group, LAMBDA c : c \in s /\ c # 32 /\ c # 10)
RowOf(rows, c) == rows[CHOOSE i \in DOMAIN rows : rows[i][1] = c]
GroupLines(group, rows) == LET g == Listed(group, rows) IN [i \in DOMAIN g |-> RowOf(rows, g[i])]
=============================================================================
