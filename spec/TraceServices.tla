----------------------------- MODULE TraceServices -----------------------------
(* C26: histories replayed on the library. e.k = "history": e.ops with what each  *)
(* operation showed (e.seen); e.key gives each entry's key. "sort": e.in, and the *)
(* numbers of the elements in the resulting order.                                *)
EXTENDS TraceBase, Services
History(e) ==
  LET key == [i \in 0..(Len(e.key) - 1) |-> e.key[i + 1]]
      op(k) == [op |-> e.ops[k][1], args |-> e.ops[k][2], key |-> e.ops[k][3]]
      r == FoldLeftDomain(LAMBDA acc, k :
             LET o == op(k)  st2 == TLCEval(Apply(acc.st, o))
             IN [st |-> st2, bad |-> acc.bad \cup If("illegal-" \o o.op, Legal(acc.st, key, o))
                                              \cup If("operation-" \o o.op, Shows(acc.st, st2, key, o, e.seen[k]))],
             [st |-> Empty, bad |-> {}], e.ops)
  IN IF Len(e.seen) # Len(e.ops) THEN {"stopped"} ELSE r.bad
SortEvent(e) ==
  IF Len(e.out) # Len(e.in) THEN {"sort-size"}
  ELSE If("sort-elements", ToSet(e.out) = DOMAIN e.in)
       \cup (IF \E k \in DOMAIN e.out : e.out[k] \notin DOMAIN e.in THEN {}
             ELSE If("sort-order", \A k \in 1..(Len(e.out) - 1) : e.in[e.out[k]] <= e.in[e.out[k + 1]]))
Judge(e) == IF e.st # "ok" THEN {e.st} ELSE IF e.k = "sort" THEN SortEvent(e) ELSE History(e)
TraceNext == l < Len(Log) /\ Consume(Judge(Log[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
