-------------------------------- MODULE MCSort --------------------------------
(* Quicksort with a hole: the pivot is taken out of the middle, elements are      *)
(* moved into the hole from alternate sides, the pivot goes into the last hole,   *)
(* and both parts are sorted. An element is <<value, number>>.                    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS Values, MaxLen
VARIABLES a0, a, stack, left, right, i, j, ref, pc
vars == <<a0, a, stack, left, right, i, j, ref, pc>>
Init == /\ a0 \in UNION {[1..n -> Values] : n \in 0..MaxLen}
        /\ a = [k \in DOMAIN a0 |-> <<a0[k], k>>]
        /\ stack = (IF Len(a0) < 2 THEN <<>> ELSE << <<1, Len(a0)>> >>)
        /\ left = 0 /\ right = 0 /\ i = 0 /\ j = 0 /\ ref = <<0, 0>> /\ pc = "pop"
Pop == /\ pc = "pop" /\ stack # <<>>
       /\ LET t == Head(stack)  m == t[1] + (t[2] - t[1]) \div 2
          IN /\ left' = t[1] /\ right' = t[2] /\ i' = t[1] /\ j' = t[2]
             /\ ref' = a[m] /\ a' = [a EXCEPT ![m] = a[t[1]]]
       /\ stack' = Tail(stack) /\ pc' = "down" /\ UNCHANGED a0
Down == /\ pc = "down"
        /\ IF i >= j THEN pc' = "put" /\ UNCHANGED <<a, i, j>>
           ELSE IF ref[1] < a[j][1] THEN j' = j - 1 /\ UNCHANGED <<a, i, pc>>
           ELSE a' = [a EXCEPT ![i] = a[j]] /\ i' = i + 1 /\ pc' = "up" /\ UNCHANGED j
        /\ UNCHANGED <<a0, stack, left, right, ref>>
Up == /\ pc = "up"
      /\ IF i >= j THEN pc' = "put" /\ UNCHANGED <<a, i, j>>
         ELSE IF ref[1] > a[i][1] THEN i' = i + 1 /\ UNCHANGED <<a, j, pc>>
         ELSE a' = [a EXCEPT ![j] = a[i]] /\ j' = j - 1 /\ pc' = "down" /\ UNCHANGED i
      /\ UNCHANGED <<a0, stack, left, right, ref>>
Put == /\ pc = "put"
       /\ a' = [a EXCEPT ![j] = ref] /\ pc' = "pop"
       /\ stack' = (IF left < j - 1 THEN << <<left, j - 1>> >> ELSE <<>>) \o (IF i + 1 < right THEN << <<i + 1, right>> >> ELSE <<>>) \o stack
       /\ UNCHANGED <<a0, left, right, i, j, ref>>
Next == Pop \/ Down \/ Up \/ Put
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == pc = "pop" /\ stack = <<>>
Sorted == Done => \A k \in 1..(Len(a) - 1) : a[k][1] <= a[k + 1][1]
(* With the pivot in the hole, the array is a rearrangement. *)
Hole == IF pc = "up" THEN j ELSE i
Kept == LET b == IF pc = "pop" THEN a ELSE IF pc = "put" THEN [a EXCEPT ![j] = ref] ELSE [a EXCEPT ![IF pc = "down" THEN i ELSE j] = ref]
        IN ToSet(b) = {<<a0[k], k>> : k \in DOMAIN a0}
Meet == pc = "put" => i = j
Ends == <>Done
=============================================================================
