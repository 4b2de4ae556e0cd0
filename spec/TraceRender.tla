------------------------------ MODULE TraceRender ------------------------------
(* C15: the complete output of synctext, given the lengths of the segments of the *)
(* alignment (recorded on texts in which every character was replaced, one to one, *)
(* by an ordinary one, and upper by lower case first where case is ignored).       *)
EXTENDS TraceBase, Render
Read(raw, ci) == LET t == ReadText(raw) IN IF ci THEN LowerText(t) ELSE t
RECURSIVE Build(_, _, _, _)
Build(lens, k, at, acc) ==
  IF k > Len(lens) THEN acc
  ELSE LET hi == TLCEval([t \in DOMAIN at |-> at[t] + lens[k][2][t] - 1])
       IN Build(lens, k + 1, TLCEval([t \in DOMAIN at |-> hi[t] + 1]), Append(acc, [m |-> lens[k][1], lo |-> at, hi |-> hi]))
Covers(segs, T) == IF segs = <<>> THEN \A t \in DOMAIN T : T[t] = <<>> ELSE \A t \in DOMAIN T : segs[Len(segs)].hi[t] = Len(T[t])
Equal(segs, T) == \A k \in DOMAIN segs : segs[k].m => \A t \in DOMAIN T : \A i \in 0..(SegLen(segs[k], t) - 1) : T[t][segs[k].lo[t] + i].v = T[1][segs[k].lo[1] + i].v
Size(ps) == SumSeq([k \in DOMAIN ps |-> ps[k][2]])
Judge(e) ==
  IF e.st # "ok" THEN {e.st}
  ELSE LET T == TLCEval([t \in DOMAIN e.texts |-> Read(e.texts[t], e.ci)])
       IN IF e.transposed
          THEN IF Size(e.px) # Len(T[1]) \/ Size(e.py) # Len(T[2]) THEN {"alignment-incomplete"}
               ELSE If("rendering", e.out = TransposedText(T, e.px, e.py, e.marks))
          ELSE LET segs == TLCEval(Build(e.lens, 1, [t \in DOMAIN T |-> 1], <<>>))
               IN IF ~Covers(segs, T) \/ ~Equal(segs, T) THEN {"alignment-incomplete"}
                  ELSE If("rendering", e.out = Synctext(T, e.names, segs, e.marks))
TraceNext == l < Len(Log) /\ Consume(Judge(Log[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
