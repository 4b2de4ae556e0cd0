-------------------------------- MODULE MCLists --------------------------------
(* Doubly linked list with a cached array, refining a sequence. 0 is no item.     *)
EXTENDS Services
CONSTANTS Items
VARIABLES first, last, prev, next, count, array, cached, s
vars == <<first, last, prev, next, count, array, cached, s>>
Init == /\ first = 0 /\ last = 0 /\ prev = [i \in Items |-> 0] /\ next = [i \in Items |-> 0] /\ count = 0
        /\ array = <<>> /\ cached = FALSE /\ s = <<>>
Link(x, i, y) ==      \* between x and y
  LET p0 == [prev EXCEPT ![i] = x]  n0 == [next EXCEPT ![i] = y]
  IN /\ next' = IF x # 0 THEN [n0 EXCEPT ![x] = i] ELSE n0
     /\ first' = IF x # 0 THEN first ELSE i
     /\ prev' = IF y # 0 THEN [p0 EXCEPT ![y] = i] ELSE p0
     /\ last' = IF y # 0 THEN last ELSE i
     /\ cached' = FALSE /\ array' = <<>> /\ count' = count + 1
Out(i) == ~In(s, i)
PutFirst(i) == Out(i) /\ Link(0, i, first) /\ s' = <<i>> \o s
PutLast(i) == Out(i) /\ Link(last, i, 0) /\ s' = Append(s, i)
Before(i, r) == Out(i) /\ In(s, r) /\ Link(prev[r], i, r) /\ s' = InsertedAt(s, Place(s, r), i)
After(r, i) == Out(i) /\ In(s, r) /\ Link(r, i, next[r]) /\ s' = InsertedAt(s, Place(s, r) + 1, i)
Remove1(i) ==
  /\ In(s, i)
  /\ LET p == prev[i]  n == next[i]
         n1 == IF p # 0 THEN [next EXCEPT ![p] = n] ELSE next
         p1 == IF n # 0 THEN [prev EXCEPT ![n] = p] ELSE prev
     IN /\ first' = IF p # 0 THEN first ELSE n
        /\ last' = IF n # 0 THEN last ELSE p
        /\ next' = [n1 EXCEPT ![i] = 0] /\ prev' = [p1 EXCEPT ![i] = 0]
  /\ cached' = FALSE /\ array' = <<>> /\ count' = count - 1 /\ s' = Removed(s, i)
RECURSIVE Walk(_, _)
Walk(f, i) == IF i = 0 THEN <<>> ELSE <<i>> \o Walk(f, f[i])
InArray == /\ IF cached \/ count = 0 THEN UNCHANGED <<array, cached>> ELSE array' = Walk(next, first) /\ cached' = TRUE
           /\ UNCHANGED <<first, last, prev, next, count, s>>
Next == (\E i \in Items : PutFirst(i) \/ PutLast(i) \/ Remove1(i) \/ \E r \in Items : Before(i, r) \/ After(r, i)) \/ InArray
Spec == Init /\ [][Next]_vars
Refines == Walk(next, first) = s /\ Walk(prev, last) = Reverse(s) /\ count = Len(s)
ArrayRight == cached => array = s
Detached == \A i \in Items : ~In(s, i) => prev[i] = 0 /\ next[i] = 0
=============================================================================
