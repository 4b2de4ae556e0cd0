----------------------------- MODULE TraceWorkbench -----------------------------
(* Each event is a history of tool runs in one directory: e.before[name] = number   *)
(* of the contents, e.names, e.steps[i] = [tool, opts, ins, how, out, rc, nerr,      *)
(* result (number of the contents written), after]. Equal contents have equal       *)
(* numbers in all events. `known` is what all earlier runs have shown.               *)
EXTENDS TraceBase, Workbench
VARIABLES known, base
Failed(cs) == {c[1] : c \in {x \in cs : ~x[2]}}
(* sums may have any number of inputs, all of one kind *)
WorkOf(s) == LET n == IF s.tool \in Sums /\ Len(s.ins) > 3 THEN 3 ELSE Len(s.ins)
             IN CHOOSE w \in Works[s.tool] : w.opts = s.opts /\ Len(w.in) = n
KindOf(w, i) == IF i > Len(w.in) THEN w.in[Len(w.in)] ELSE w.in[i]
Replay(acc, s) ==
  LET ids == [i \in DOMAIN s.ins |-> acc.fs[s.ins[i]]]
      key == TLCEval(Key(s.tool, s.opts, ids, Labels(s.tool, s.opts, s.labels), acc.base))
      w == WorkOf(s)
      possible == Enough(s.tool, s.sizes)
      wrong == Failed({<<"not-possible-here", \A i \in DOMAIN ids : ids[i] # Absent /\ Accepts(KindOf(w, i), acc.kind[s.ins[i]])>>,
                       <<"refused", possible => s.rc = 0 /\ s.nerr = 0>>,
                       <<"not-refused", ~possible => s.rc > 0 /\ s.nerr > 0 /\ s.printed = 0 /\ s.after = acc.fs>>,
                       <<"result-depends-on-more-than-its-inputs", possible /\ key \in DOMAIN acc.known => acc.known[key] = s.result>>,
                       <<"other-files-changed", \A n \in DOMAIN acc.fs : n # s.out => s.after[n] = acc.fs[n]>>,
                       <<"output-not-replaced", possible /\ s.out # "" => s.after[s.out] = s.result>>,
                       <<"printed-although-written-to-a-file", s.how = "named" => s.printed = 0>>})
      new == possible /\ key \notin DOMAIN acc.known
  IN [fs |-> TLCEval(s.after),
      kind |-> IF s.out = "" \/ ~possible THEN acc.kind ELSE [acc.kind EXCEPT ![s.out] = w.kind],
      known |-> IF new THEN (key :> s.result) @@ acc.known ELSE acc.known,
      base |-> IF new /\ s.tool \in Sums /\ s.result \notin DOMAIN acc.base THEN (s.result :> key.ids) @@ acc.base ELSE acc.base,
      bad |-> acc.bad \cup wrong]
Result(e) == FoldLeft(Replay, [fs |-> e.before, kind |-> [n \in DOMAIN e.before |-> IF e.before[n] = Absent THEN "none" ELSE "text"],
                               known |-> known, base |-> base, bad |-> {}], e.steps)
Init == TraceInit /\ known = <<>> /\ base = <<>>
TraceNext == /\ l < Len(Log)
             /\ LET r == TLCEval(Result(Log[l + 1]))
                IN Consume(r.bad) /\ known' = r.known /\ base' = r.base
TraceSpec == Init /\ [][TraceNext]_<<l, known, base>>
=============================================================================
