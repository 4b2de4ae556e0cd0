------------------------------ MODULE MCWorkbench ------------------------------
EXTENDS Workbench, Json
CONSTANTS Texts, Others,      \* names of files that are texts at first, and that are absent
          WithTools, MaxSteps, Show
VARIABLES fs, kinds, results, base, log
vars == <<fs, kinds, results, base, log>>
Content == <<fs, kinds, results, base, Len(log)>>
Names == Texts \cup Others
ToolNames == IF WithTools = {} THEN DOMAIN Works ELSE WithTools
Order == SetToSeq(Texts)
Init == /\ fs = [n \in Names |-> IF n \in Texts THEN CHOOSE i \in DOMAIN Order : Order[i] = n ELSE Absent]
        /\ kinds = [i \in 1..Len(Order) |-> "text"] /\ results = <<>> /\ base = <<>> /\ log = <<>>
Run(tool, w, ins, how, out) ==
  /\ \A i \in DOMAIN ins : fs[ins[i]] # Absent /\ Accepts(w.in[i], kinds[fs[ins[i]]])
  /\ LET ids == [i \in DOMAIN ins |-> fs[ins[i]]]
         key == Key(tool, w.opts, ids, Labels(tool, w.opts, ins), base)
         new == key \notin DOMAIN results
         id == IF new THEN Len(kinds) + 1 ELSE results[key]
     IN /\ kinds' = IF new THEN Append(kinds, w.kind) ELSE kinds
        /\ results' = IF new THEN (key :> id) @@ results ELSE results
        /\ base' = IF new /\ tool \in Sums THEN (id :> key.ids) @@ base ELSE base
        /\ fs' = IF out = "" THEN fs ELSE [fs EXCEPT ![out] = id]
        /\ log' = Append(log, [tool |-> tool, opts |-> w.opts, ins |-> ins, how |-> how, out |-> out])
Step(tool) == \E w \in Works[tool] : \E ins \in [DOMAIN w.in -> Names] :
                \E how \in {"stdout"} \cup (IF w.named THEN {"named"} ELSE {}) : \E out \in Names \cup (IF how = "stdout" THEN {""} ELSE {}) :
                   Run(tool, w, ins, how, out)
Next == Len(log) < MaxSteps /\ \E tool \in ToolNames : Step(tool)
Spec == Init /\ [][Next]_vars
(* Simulation: the kinds of work are chosen evenly, with one choice of the rest. *)
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Fits(w) == LET ok(k) == {n \in Names : fs[n] # Absent /\ Accepts(k, kinds[fs[n]])}
           IN IF \E i \in DOMAIN w.in : ok(w.in[i]) = {} THEN {} ELSE {[i \in DOMAIN w.in |-> RandomElement(ok(w.in[i]))]}
SimStep == \E tool \in ToolNames : \E w \in Pick(Works[tool]) : \E ins \in Fits(w) :
             \E how \in Pick({"stdout"} \cup (IF w.named THEN {"named"} ELSE {})) :
                \E out \in Pick(IF RandomElement(1..8) = 1 THEN Names ELSE Others) : Run(tool, w, ins, how, out)
SimNext == Len(log) < MaxSteps /\ SimStep
SimSpec == Init /\ [][SimNext]_vars
(* Only the output changes; a result is never redefined. *)
OnlyOutput == [][\A n \in Names : fs'[n] # fs[n] => n = log'[Len(log')].out]_vars
Stable == [][\A k \in DOMAIN results : k \in DOMAIN results' /\ results'[k] = results[k]]_vars
(* Every content has one kind, and one way of being made. *)
OneResult == \A k, m \in DOMAIN results : results[k] = results[m] => k = m
(* What is in a file is explained by the texts of the beginning: sums rest on reports that are not sums. *)
Grounded == \A id \in DOMAIN base : \A i \in DOMAIN base[id] : base[id][i] \notin DOMAIN base /\ kinds[base[id][i]] = kinds[id]
(* A sum of sums is the sum of all: making it in another grouping adds no new content. *)
Regroup == \A t \in Sums : \A x, y, z \in DOMAIN kinds :
    LET k1 == Key(t, "", <<x, y, z>>, <<>>, base)
        two == Key(t, "", <<x, y>>, <<>>, base)
    IN two \in DOMAIN results /\ k1 \in DOMAIN results => results[k1] = results[k1] /\ Key(t, "", <<results[two], z>>, <<>>, base) = k1
Emit == Show /\ Len(log) = MaxSteps => PrintT(<<"HISTORY", ToJson(log)>>)
=============================================================================
