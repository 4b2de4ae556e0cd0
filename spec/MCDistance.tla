------------------------------ MODULE MCDistance ------------------------------
(* The choice of voters as a machine that takes the texts one after the other,   *)
(* counting pairs. For all texts within the constants: the accumulated counts    *)
(* are those of the pairs; distances do not depend on the order of the texts;    *)
(* equal texts have equal distances, so earlier ones are preferred; pairs with ~  *)
(* count in full; if more than half of the texts are equal and free of ~ they are *)
(* at distance 0 and chosen.                                                     *)
EXTENDS Vote, RunWords, TLC
CONSTANTS Alphabet, MaxLen, Voters
VARIABLES texts, t, i, count
vars == <<texts, t, i, count>>
All == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
T == [k \in 1..Voters |-> Unmarked(texts[k])]
Init == texts \in [1..Voters -> All] /\ t = 1 /\ i = 1 /\ count = [k \in 1..Voters |-> <<>>]
Busy == t <= Voters
Add(f, x) == IF x \in DOMAIN f THEN [f EXCEPT ![x] = @ + 1] ELSE [y \in DOMAIN f \cup {x} |-> IF y = x THEN 1 ELSE f[y]]
Step == /\ Busy /\ i < Len(texts[t])
        /\ count' = [count EXCEPT ![t] = Add(@, <<texts[t][i], texts[t][i + 1]>>)]
        /\ i' = i + 1 /\ UNCHANGED <<texts, t>>
NextText == Busy /\ i >= Len(texts[t]) /\ t' = t + 1 /\ i' = 1 /\ UNCHANGED <<texts, count>>
Next == Step \/ NextText
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
D == Distances2(T)
Counted == ~Busy => \A k \in 1..Voters : count[k] = Tallied(PairsOf(T[k])) /\ \A x \in DOMAIN count[k] :
                      count[k][x] = Cardinality({p \in 1..(Len(texts[k]) - 1) : <<texts[k][p], texts[k][p + 1]>> = x})
Rev == [k \in 1..Voters |-> T[Voters + 1 - k]]
Symmetric == ~Busy => \A k \in 1..Voters : Distances2(Rev)[k] = D[Voters + 1 - k]
Majority == ~Busy => \A k \in 1..Voters :
   (2 * Cardinality({j \in 1..Voters : T[j] = T[k]}) > Voters /\ REJ \notin ToSet(texts[k]) /\ (\A j \in 1..Voters : REJ \notin ToSet(texts[j]))) => D[k] = 0 /\ Contains([c \in DOMAIN Chosen(T) |-> T[Chosen(T)[c]]], T[k])
Ordered == ~Busy => LET o == ByDistance(D) IN \A a, b \in 1..Voters : a < b => D[o[a]] < D[o[b]] \/ (D[o[a]] = D[o[b]] /\ o[a] < o[b])
InRuns == ~Busy => \A k \in 1..Voters : RunPairs(Runs(texts[k])) = Tallied(PairsOf(T[k]))
(* The vote among three runs of one character is the run of median length. *)
Triples == {<<a, b, c>> : a, b, c \in 1..4}
ASSUME \A n \in Triples : LET t3 == [z \in 1..3 |-> [k \in 1..n[z] |-> Ch(5, FALSE)]]
                          IN Voted(t3, Heuristic([z \in 1..3 |-> Values(t3[z])]), Rule(1, 1, 3, 0, 0)) = [k \in 1..(SortSeq(n, <)[2]) |-> Ch(5, FALSE)]
Ends == <>(~Busy)
=============================================================================
