------------------------------- MODULE MCBigInt -------------------------------
(* The arithmetic of BigInt agrees with TLC's where TLC's is defined, and obeys *)
(* the laws that determine it beyond.                                           *)
EXTENDS BigInt, TLC
VARIABLES x, y, z
Vals == {0, 1, 2, 7, 9999, 10000, 10001, 12345, 30000, 46340}
Big == {IntOf(v) : v \in Vals} \cup {INeg(IntOf(v)) : v \in Vals} \cup
       {IMul(IntOf(99999999), IntOf(v)) : v \in {99999999, 10000, -1}}
Init == x \in Big /\ y \in Big /\ z \in Big
Next == UNCHANGED <<x, y, z>>
Spec == Init /\ [][Next]_<<x, y, z>>
Laws == /\ IAdd(x, y) = IAdd(y, x) /\ IMul(x, y) = IMul(y, x)
        /\ IAdd(IAdd(x, y), z) = IAdd(x, IAdd(y, z))
        /\ IMul(IAdd(x, y), z) = IAdd(IMul(x, z), IMul(y, z))
        /\ ISub(IAdd(x, y), y) = x
        /\ (ILess(x, y) <=> ISign(ISub(x, y)) = -1)
        /\ (ILess(x, y) => ILess(IAdd(x, z), IAdd(y, z)))
ASSUME \A p \in Vals, q \in Vals : /\ IntOf(p * q) = IMul(IntOf(p), IntOf(q))
                                   /\ IntOf(p - q) = ISub(IntOf(p), IntOf(q))
                                   /\ (p < q) = ILess(IntOf(p), IntOf(q))
=============================================================================
