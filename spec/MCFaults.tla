-------------------------------- MODULE MCFaults --------------------------------
EXTENDS Faults, Integers, TLC, Json
CONSTANTS ToolSet, Length, MaxFaults, Show, Handles
VARIABLES tool, conds, out, limit, pc, i, wrote, created, rc, said, held      \* held: how many files are open
vars == <<tool, conds, out, limit, pc, i, wrote, created, rc, said, held>>
N == Len(Plans[tool])
Init == /\ tool \in (IF ToolSet = {} THEN DOMAIN Plans ELSE ToolSet)
        /\ conds \in {c \in [1..Len(Plans[tool]) -> Conditions] : /\ \A k \in DOMAIN c : Applies(Plans[tool][k], c[k])
                                                                  /\ Cardinality({k \in DOMAIN c : c[k] # "ok"}) <= MaxFaults}
        /\ out \in OutConditions /\ limit \in (IF out = "limit" THEN 0..(Length + 1) ELSE {0})
        /\ pc = "reading" /\ i = 1 /\ wrote = 0 /\ created = FALSE /\ rc = -1 /\ said = FALSE /\ held = 0
Inputs == UNCHANGED <<tool, conds, out, limit>>
Fail == pc' = "ended" /\ rc' = 1 /\ said' = TRUE /\ held' = 0
(* one input at a time is open, and there must be a handle to spare for it *)
Open == pc = "reading" /\ i <= N /\ held < Handles /\ pc' = "open" /\ held' = held + 1 /\ UNCHANGED <<i, wrote, created, rc, said>> /\ Inputs
(* an input that may be refused is refused or read *)
Read == /\ pc = "open"
        /\ \/ Refuses(tool, i, Plans[tool][i], conds[i]) /\ Fail /\ UNCHANGED <<i, wrote, created>>
           \/ Uncertain(tool, i, Plans[tool][i], conds[i]) /\ Fail /\ UNCHANGED <<i, wrote, created>>
           \/ ~Refuses(tool, i, Plans[tool][i], conds[i]) /\ i' = i + 1 /\ pc' = "reading" /\ held' = held - 1 /\ UNCHANGED <<wrote, created, rc, said>>
        /\ Inputs
Create == /\ pc = "reading" /\ i > N /\ held < Handles
          /\ IF out = "uncreatable" THEN Fail /\ UNCHANGED <<i, wrote, created>>
             ELSE pc' = "writing" /\ created' = TRUE /\ held' = held + 1 /\ UNCHANGED <<i, wrote, rc, said>>
          /\ Inputs
Room == out = "ok" \/ (out = "limit" /\ wrote < limit)
Write == pc = "writing" /\ wrote < Length /\ Room /\ wrote' = wrote + 1 /\ UNCHANGED <<pc, i, created, rc, said, held>> /\ Inputs
(* a byte that cannot be written: noticed at the latest when the output is closed *)
Close == /\ pc = "writing"
         /\ \/ wrote = Length /\ out # "closed" /\ pc' = "ended" /\ rc' = 0 /\ held' = 0 /\ UNCHANGED <<i, wrote, created, said>>
            \/ ((wrote < Length /\ ~Room) \/ out = "closed") /\ Fail /\ UNCHANGED <<i, wrote, created>>
         /\ Inputs
(* the user interrupts *)
Interrupt == pc \in {"reading", "open", "writing"} /\ Fail /\ UNCHANGED <<i, wrote, created>> /\ Inputs
Next == Open \/ Read \/ Create \/ Write \/ Close \/ Interrupt
Spec == Init /\ [][Next]_vars /\ WF_vars(Open \/ Read \/ Create \/ Write \/ Close)
Ended == pc = "ended"
AllOrNothing == Ended => (rc = 0 <=> wrote = Length /\ ~said)
Visible == Ended => (rc # 0 <=> said)
RefusalWritesNothing == Ended /\ MustRefuse(tool, conds) => rc # 0 /\ ~created /\ wrote = 0
FaultsAreFailures == Ended /\ OutputFails(out, limit, Length) => rc # 0
Ends == <>Ended
Nothing == pc = "never" /\ UNCHANGED vars
Emit == Show /\ out = "ok" => PrintT(<<"HISTORY", ToJson([tool |-> tool, conds |-> conds])>>)
=============================================================================
