------------------------------- MODULE MCCollect -------------------------------
(* Counting word by word into a table, file after file; files hold words of the   *)
(* constant. At the end the table gives the occurrences in all files, the total    *)
(* is the number of words, and neither depends on the order.                      *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS Vocabulary, MaxLen, Files
VARIABLES files, f, i, table, total
vars == <<files, f, i, table, total>>
Texts == UNION {[1..n -> Vocabulary] : n \in 0..MaxLen}
Init == files \in [1..Files -> Texts] /\ f = 1 /\ i = 1 /\ table = <<>> /\ total = 0
Busy == f <= Files
Count == /\ Busy /\ i <= Len(files[f])
         /\ LET w == files[f][i] IN table' = IF w \in DOMAIN table THEN [table EXCEPT ![w] = @ + 1] ELSE [x \in DOMAIN table \cup {w} |-> IF x = w THEN 1 ELSE table[x]]
         /\ total' = total + 1 /\ i' = i + 1 /\ UNCHANGED <<files, f>>
NextFile == Busy /\ i > Len(files[f]) /\ f' = f + 1 /\ i' = 1 /\ UNCHANGED <<files, table, total>>
Next == Count \/ NextFile
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Positions == {<<g, k>> \in (1..Files) \X (1..MaxLen) : k <= Len(files[g])}
Occurs(w) == Cardinality({q \in Positions : files[q[1]][q[2]] = w})
Right == ~Busy => /\ DOMAIN table = {files[q[1]][q[2]] : q \in Positions}
                  /\ \A w \in DOMAIN table : table[w] = Occurs(w)
                  /\ total = Cardinality(Positions)
Ends == <>(~Busy)
=============================================================================
