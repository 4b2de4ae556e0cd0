------------------------------- MODULE MCText -------------------------------
(* The spacing pass as a state machine: it removes or keeps one character   *)
(* per step. Checked for every marked text over Alphabet up to MaxLen.      *)
EXTENDS Text, TLC
CONSTANTS Alphabet, MaxLen
VARIABLES in, a, i
vars == <<in, a, i>>

Texts == UNION {[1..n -> {Ch(v, s) : v \in Alphabet, s \in BOOLEAN}] : n \in 0..MaxLen}
Init == /\ in \in Texts
        /\ a = PassInit
        /\ i = 1
Drop == /\ i <= Len(in)
        /\ Len(PassStep(Spaced(in), a, i).o) = Len(a.o)
        /\ a' = PassStep(Spaced(in), a, i)
        /\ i' = i + 1
        /\ UNCHANGED in
KeepIt == /\ i <= Len(in)
        /\ Len(PassStep(Spaced(in), a, i).o) > Len(a.o)
        /\ a' = PassStep(Spaced(in), a, i)
        /\ i' = i + 1
        /\ UNCHANGED in
Next == Drop \/ KeepIt
Spec == Init /\ [][Next]_vars

Done == i = Len(in) + 1
(* The pass computes the declarative normal form... *)
ComputesNormalForm == Done => a.o = NormalForm(in) /\ a.o = Normalize(in)
(* ...which has these properties. *)
IsNormal(o) == /\ \A k \in DOMAIN o : o[k].v \notin (Blank \ {SP})
               /\ \A k \in DOMAIN o : o[k].v = SP => k > 1 /\ k < Len(o) /\ o[k-1].v \notin {SP, NL} /\ o[k+1].v \notin {SP, NL}
               /\ \A k \in DOMAIN o : o[k].v = NL => k > 1 /\ o[k-1].v # NL
ResultIsNormal == Done => IsNormal(a.o)
Idempotent == Done => Normalize(a.o) = a.o
InkPreserved == Done => LET Ink(t) == SelectSeq(t, LAMBDA c : c.v \notin Blank \cup {NL}) IN Ink(a.o) = Ink(in)
(* Texts that differ only in spacing: adding a blank beside a blank or a line end changes no value. *)
InsertionInvariant ==
  Done => \A k \in 1..Len(in) : in[k].v \in Blank \cup {NL} =>
     \A b \in Alphabet \cap Blank :
       /\ Values(Normalize(InsertAt(in, k, Ch(b, FALSE)))) = Values(a.o)
       /\ (k < Len(in) => Values(Normalize(InsertAt(in, k + 1, Ch(b, FALSE)))) = Values(a.o))
TypeOK == Len(a.o) <= i - 1
=============================================================================
