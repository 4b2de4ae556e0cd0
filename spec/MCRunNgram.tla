------------------------------ MODULE MCRunNgram ------------------------------
(* A text grows at its end; as runs it has the same n-grams.                     *)
EXTENDS Ngrams
CONSTANTS MaxLen, Chars, Sizes
VARIABLES text, runs
Grow(r, q, s) == IF r # <<>> /\ r[Len(r)][1] = q /\ r[Len(r)][2] = s THEN [r EXCEPT ![Len(r)] = <<q, s, @[3] + 1>>] ELSE Append(r, <<q, s, 1>>)
Init == text = <<>> /\ runs = <<>>
Next == \E q \in Chars, s \in BOOLEAN : /\ Len(text) < MaxLen
                                         /\ text' = Append(text, [v |-> q, s |-> s]) /\ runs' = Grow(runs, q, s)
Spec == Init /\ [][Next]_<<text, runs>>
Less(a, b) == \E j \in DOMAIN a : a[j] < b[j] /\ \A k \in 1..(j - 1) : a[k] = b[k]
Same == \A n \in Sizes : Merged(Less, Weighted(runs, n)) = Rows(Less, text, n)
=============================================================================
