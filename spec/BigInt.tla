------------------------------- MODULE BigInt -------------------------------
(* Integers of any size, because TLC's are of 32 bits. A natural is a        *)
(* sequence of limbs in base 10000, least significant first, without leading *)
(* zeros; an integer is [neg, mag].                                          *)
EXTENDS Naturals, Integers, Sequences, SequencesExt
LOCAL BASE == 10000
RECURSIVE NatOf(_)
NatOf(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o NatOf(n \div BASE)
Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
LOCAL Trim(a) == LET I == {i \in DOMAIN a : a[i] # 0}
                 IN IF I = {} THEN <<>> ELSE SubSeq(a, 1, CHOOSE i \in I : \A j \in I : j <= i)
(* s: limbs that may be too large; carries are passed on *)
LOCAL Carry(s) ==
  LET r == FoldLeft(LAMBDA x, d : [o |-> Append(x.o, (d + x.c) % BASE), c |-> (d + x.c) \div BASE], [o |-> <<>>, c |-> 0], s)
  IN Trim(r.o \o NatOf(r.c))
NatAdd(a, b) == Carry([i \in 1..(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) |-> Limb(a, i) + Limb(b, i)])
(* a >= b *)
NatSub(a, b) ==
  Trim(FoldLeft(LAMBDA x, i : LET d == a[i] - Limb(b, i) - x.c
                              IN [o |-> Append(x.o, IF d < 0 THEN d + BASE ELSE d), c |-> IF d < 0 THEN 1 ELSE 0],
                [o |-> <<>>, c |-> 0], [i \in DOMAIN a |-> i]).o)
NatScale(a, d) == Carry([i \in DOMAIN a |-> a[i] * d])          \* d < BASE
NatMul(a, b) ==
  FoldLeft(LAMBDA x, i : NatAdd(x, IF NatScale(a, b[i]) = <<>> THEN <<>> ELSE [k \in 1..(i-1) |-> 0] \o NatScale(a, b[i])),
           <<>>, [i \in DOMAIN b |-> i])
RECURSIVE NatLess(_, _)
NatLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
                 ELSE IF a = <<>> THEN FALSE
                 ELSE IF a[Len(a)] # b[Len(b)] THEN a[Len(a)] < b[Len(b)]
                 ELSE NatLess(SubSeq(a, 1, Len(a) - 1), SubSeq(b, 1, Len(b) - 1))
NatLeq(a, b) == ~NatLess(b, a)

MkInt(neg, mag) == [neg |-> neg /\ mag # <<>>, mag |-> mag]
IntOf(n) == IF n < 0 THEN MkInt(TRUE, NatOf(-n)) ELSE MkInt(FALSE, NatOf(n))
INeg(a) == MkInt(~a.neg, a.mag)
IAdd(a, b) == IF a.neg = b.neg THEN MkInt(a.neg, NatAdd(a.mag, b.mag))
              ELSE IF NatLess(a.mag, b.mag) THEN MkInt(b.neg, NatSub(b.mag, a.mag))
              ELSE MkInt(a.neg, NatSub(a.mag, b.mag))
ISub(a, b) == IAdd(a, INeg(b))
IMul(a, b) == MkInt(a.neg # b.neg, NatMul(a.mag, b.mag))
IAbs(a) == MkInt(FALSE, a.mag)
ILess(a, b) == IF a.neg # b.neg THEN a.neg
               ELSE IF a.neg THEN NatLess(b.mag, a.mag) ELSE NatLess(a.mag, b.mag)
ILeq(a, b) == ~ILess(b, a)
ISum(s) == FoldLeft(IAdd, IntOf(0), s)
IZero == IntOf(0)
ISign(a) == IF a.mag = <<>> THEN 0 ELSE IF a.neg THEN -1 ELSE 1
=============================================================================
