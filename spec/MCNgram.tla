------------------------------- MODULE MCNgram -------------------------------
(* Collecting n-grams: at each character of each file a window is filled        *)
(* character by character; a file ends when a window cannot be filled. At the    *)
(* end the table has every window of every file, and none across files.          *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS Alphabet, MaxLen, Files, Sizes
VARIABLES n, files, f, start, w, sus, table, total, totalSus
vars == <<n, files, f, start, w, sus, table, total, totalSus>>
Texts == UNION {[1..k -> Alphabet \X BOOLEAN] : k \in 0..MaxLen}
Init == /\ n \in Sizes /\ files \in [1..Files -> Texts]
        /\ f = 1 /\ start = 1 /\ w = <<>> /\ sus = FALSE /\ table = <<>> /\ total = 0 /\ totalSus = 0
Busy == f <= Files
Here == start + Len(w)
Fill == /\ Busy /\ Len(w) < n /\ start <= Len(files[f]) /\ Here <= Len(files[f])
        /\ w' = Append(w, files[f][Here][1]) /\ sus' = (sus \/ files[f][Here][2])
        /\ UNCHANGED <<n, files, f, start, table, total, totalSus>>
One == IF sus THEN 1 ELSE 0
Add == /\ Busy /\ Len(w) = n
       /\ table' = IF w \in DOMAIN table THEN [table EXCEPT ![w] = <<@[1] + 1, @[2] + One>>]
                   ELSE [x \in DOMAIN table \cup {w} |-> IF x = w THEN <<1, One>> ELSE table[x]]
       /\ total' = total + 1 /\ totalSus' = totalSus + One
       /\ start' = start + 1 /\ w' = <<>> /\ sus' = FALSE
       /\ UNCHANGED <<n, files, f>>
NextFile == /\ Busy /\ Len(w) < n /\ (start > Len(files[f]) \/ Here > Len(files[f]))
            /\ f' = f + 1 /\ start' = 1 /\ w' = <<>> /\ sus' = FALSE
            /\ UNCHANGED <<n, files, table, total, totalSus>>
Next == Fill \/ Add \/ NextFile
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Windows == {q \in (1..Files) \X (1..MaxLen) : q[2] + n - 1 <= Len(files[q[1]])}
Window(q) == [i \in 1..n |-> files[q[1]][q[2] + i - 1][1]]
IsSuspect(q) == \E i \in 1..n : files[q[1]][q[2] + i - 1][2]
Right == ~Busy => /\ DOMAIN table = {Window(q) : q \in Windows}
                  /\ \A x \in DOMAIN table : /\ table[x][1] = Cardinality({q \in Windows : Window(q) = x})
                                             /\ table[x][2] = Cardinality({q \in Windows : Window(q) = x /\ IsSuspect(q)})
                  /\ total = Cardinality(Windows)
                  /\ totalSus = Cardinality({q \in Windows : IsSuspect(q)})
Ends == <>(~Busy)
=============================================================================
