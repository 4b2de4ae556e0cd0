------------------------------- MODULE TraceSync -------------------------------
(* C14, C16: block alignments recorded from synctext -H, from synctext of more   *)
(* than two texts, from synctext -T and from editop.                             *)
EXTENDS TraceBase, Sync
Low(x, ci) == IF ci /\ x \in 65..90 THEN x + 32 ELSE x
Read(raw, ci) == LET v == Values(ReadText(raw)) IN [i \in DOMAIN v |-> Low(v[i], ci)]
(* e.segs[k] = [m, c] where c gives the content of each text. *)
JudgeHeuristic(e) ==
  LET T == TLCEval([t \in DOMAIN e.texts |-> Read(e.texts[t], e.ci)])
      W == TLCEval(Lengths(Heuristic(T)))
      got == [k \in DOMAIN e.segs |-> [m |-> e.segs[k].m, n |-> [t \in DOMAIN e.segs[k].c |-> Len(e.segs[k].c[t])]]]
  IN If("lossless", \A t \in DOMAIN T : FlattenSeq([k \in DOMAIN e.segs |-> e.segs[k].c[t]]) = T[t])
     \cup If("matched-equal", \A k \in DOMAIN e.segs : e.segs[k].m => \A t \in DOMAIN T : e.segs[k].c[t] = e.segs[k].c[1] /\ ~Contains(e.segs[k].c[t], REJ))
     \cup If("longest-common-first", got = W)
JudgeTransposed(e) ==
  LET x == TLCEval(Read(e.texts[1], e.ci))
      y == TLCEval(Read(e.texts[2], e.ci))
      W == TLCEval(Transposed(x, y))
      Sizes(ps) == [k \in DOMAIN ps |-> <<ps[k].id, Len(ps[k].c)>>]
      All(ps) == FlattenSeq([k \in DOMAIN ps |-> ps[k].c])
  IN If("lossless", All(e.x) = x /\ All(e.y) = y)
     \cup If("matched-equal", \A k \in DOMAIN e.x : e.x[k].id # 0 => \A j \in DOMAIN e.y : e.y[j].id = e.x[k].id => e.y[j].c = e.x[k].c)
     \cup If("first-text", Sizes(e.x) = W.x) \cup If("second-text", Sizes(e.y) = W.y)
JudgeEdit(e) ==
  LET x == TLCEval(Read(e.texts[1], FALSE))
      y == TLCEval(Read(e.texts[2], FALSE))
      W == TLCEval(TransposeFrom(x, y, Pieces(x), Pieces(y), 1))
      Left(ps) == SelectSeq(ps, LAMBDA q : q.id = 0)
      Size(ps) == SumSeq([k \in DOMAIN ps |-> ps[k].hi - ps[k].lo + 1])
      ins == SumSeq([k \in DOMAIN Left(W.x) |-> Cardinality({i \in Left(W.x)[k].lo..Left(W.x)[k].hi : x[i] # REJ})])
  IN If("insertions", e.ins = ins) \cup If("deletions", e.del = Size(Left(W.y)))
Judge(e) == IF e.st # "ok" THEN {e.st}
            ELSE CASE e.k = "heuristic" -> JudgeHeuristic(e) [] e.k = "transposed" -> JudgeTransposed(e) [] OTHER -> JudgeEdit(e)
TraceNext == l < Len(Log) /\ Consume(Judge(Log[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
