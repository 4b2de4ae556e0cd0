------------------------------- MODULE TraceMoves -------------------------------
(* C17: the moves of editop, given the blocks of the transposed alignment of the  *)
(* two texts; with -D every list that is gone through is shown.                   *)
EXTENDS TraceBase, Moves
Judge(e) ==
  IF e.st # "ok" THEN {e.st}
  ELSE LET W == TLCEval(AllMoves(e.blocks))
           Times(n) == Cardinality({i \in DOMAIN W.moves : W.moves[i] = n})
           first == SelectInSeq([k \in DOMAIN e.shown |-> k], LAMBDA k : k > Len(W.shown) \/ e.shown[k] # W.shown[k])
       IN If("number-of-moves", e.moves = Len(W.moves))
          \cup If("lengths-of-moves", e.len = SetToSortSeq({<<n, Times(n)>> : n \in {W.moves[i] : i \in DOMAIN W.moves}}, LAMBDA a, b : a[1] < b[1]))
          \cup If("steps", e.shown = <<>> \/ (first = 0 /\ Len(e.shown) = Len(W.shown)))
TraceNext == l < Len(Log) /\ Consume(Judge(Log[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
