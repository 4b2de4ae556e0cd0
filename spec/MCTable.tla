-------------------------------- MODULE MCTable --------------------------------
(* Hash table: entries are put first into the bucket of their key; it refines a   *)
(* map from keys to entries, whatever keys collide.                               *)
EXTENDS Services
CONSTANTS Entries, Keys, Buckets
VARIABLES hash, key, bucket, count, array, cached, map
vars == <<hash, key, bucket, count, array, cached, map>>
B == 1..Buckets
Init == /\ hash \in [Keys -> B] /\ key \in [Entries -> Keys]
        /\ bucket = [b \in B |-> <<>>] /\ count = 0 /\ array = <<>> /\ cached = FALSE /\ map = <<>>
Inserted(e) == \E b \in B : In(bucket[b], e)
Insert(e) == /\ key[e] \notin DOMAIN map
             /\ bucket' = [bucket EXCEPT ![hash[key[e]]] = <<e>> \o @]
             /\ map' = (key[e] :> e) @@ map
             /\ count' = count + 1 /\ cached' = FALSE /\ array' = <<>> /\ UNCHANGED <<hash, key>>
Delete(e) == /\ Inserted(e)
             /\ bucket' = [bucket EXCEPT ![hash[key[e]]] = Removed(@, e)]
             /\ map' = [k \in (DOMAIN map) \ {key[e]} |-> map[k]]
             /\ count' = count - 1 /\ cached' = FALSE /\ array' = <<>> /\ UNCHANGED <<hash, key>>
InArray == /\ ~cached /\ count > 0
           /\ array' = FlattenSeq([b \in B |-> bucket[b]]) /\ cached' = TRUE /\ UNCHANGED <<hash, key, bucket, count, map>>
Clear == bucket' = [b \in B |-> <<>>] /\ count' = 0 /\ cached' = FALSE /\ array' = <<>> /\ map' = <<>> /\ UNCHANGED <<hash, key>>
Next == (\E e \in Entries : Insert(e) \/ Delete(e)) \/ InArray \/ Clear
Spec == Init /\ [][Next]_vars
Found(k) == LET s == SelectSeq(bucket[hash[k]], LAMBDA e : key[e] = k) IN IF s = <<>> THEN 0 ELSE s[1]
LookupRight == \A k \in Keys : Found(k) = IF k \in DOMAIN map THEN map[k] ELSE 0
CountRight == count = Cardinality(DOMAIN map)
ArrayRight == cached => Len(array) = count /\ ToSet(array) = {map[k] : k \in DOMAIN map}
=============================================================================
