------------------------------ MODULE WordBreaks ------------------------------
(* Default word boundaries, Unicode Standard Annex 29 (Unicode 8.0). A text is   *)
(* given as the sequence p of Word_Break property values of its characters.      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Other == 0  CR == 1  LF == 2  Newline == 3  Extend == 4  RI == 5  Format == 6  Katakana == 7  Hebrew == 8  ALetter == 9
SQuote == 10  DQuote == 11  MidNumLet == 12  MidLetter == 13  MidNum == 14  Numeric == 15  ExtNumLet == 16
Edge == -1                                  \* start or end of text
Ignored == {Extend, Format}
Breaking == {CR, LF, Newline}
Letter == {ALetter, Hebrew}
MidNumLetQ == {MidNumLet, SQuote}
(* WB4: Extend and Format characters belong to the character before them, except  *)
(* at the start of the text and after a CR, LF or Newline. Base(p): the positions  *)
(* of the other characters.                                                       *)
IsBase(p, i) == p[i] \notin Ignored \/ i = 1 \/ p[i - 1] \in Breaking
Bases(p) == SelectSeq([i \in DOMAIN p |-> i], LAMBDA i : IsBase(p, i))
(* Rules WB3 to WB14 between two neighbouring bases b and c; a: the base before b, *)
(* d: the base after c; adjacent: c follows b directly.                            *)
NoBreak(a, b, c, d, adjacent) ==
  CASE b = CR /\ c = LF /\ adjacent -> TRUE                                      \* WB3
    [] b \in Breaking \/ c \in Breaking -> FALSE                                 \* WB3a, WB3b
    [] b \in Letter /\ c \in Letter -> TRUE                                      \* WB5
    [] b \in Letter /\ c \in {MidLetter} \cup MidNumLetQ /\ d \in Letter -> TRUE \* WB6
    [] a \in Letter /\ b \in {MidLetter} \cup MidNumLetQ /\ c \in Letter -> TRUE \* WB7
    [] b = Hebrew /\ c = SQuote -> TRUE                                          \* WB7a
    [] b = Hebrew /\ c = DQuote /\ d = Hebrew -> TRUE                            \* WB7b
    [] a = Hebrew /\ b = DQuote /\ c = Hebrew -> TRUE                            \* WB7c
    [] b = Numeric /\ c = Numeric -> TRUE                                        \* WB8
    [] b \in Letter /\ c = Numeric -> TRUE                                       \* WB9
    [] b = Numeric /\ c \in Letter -> TRUE                                       \* WB10
    [] a = Numeric /\ b \in {MidNum} \cup MidNumLetQ /\ c = Numeric -> TRUE      \* WB11
    [] b = Numeric /\ c \in {MidNum} \cup MidNumLetQ /\ d = Numeric -> TRUE      \* WB12
    [] b = Katakana /\ c = Katakana -> TRUE                                      \* WB13
    [] b \in Letter \cup {Numeric, Katakana, ExtNumLet} /\ c = ExtNumLet -> TRUE \* WB13a
    [] b = ExtNumLet /\ c \in Letter \cup {Numeric, Katakana} -> TRUE            \* WB13b
    [] b = RI /\ c = RI -> TRUE                                                  \* WB13c
    [] OTHER -> FALSE                                                            \* WB14
At(p, bs, k) == IF k < 1 \/ k > Len(bs) THEN Edge ELSE p[bs[k]]
(* The starts of the segments. *)
Starts(p) ==
  LET bs == TLCEval(Bases(p))
      ks == SelectSeq([k \in DOMAIN bs |-> k], LAMBDA k :
              k = 1 \/ ~NoBreak(At(p, bs, k - 2), At(p, bs, k - 1), At(p, bs, k), At(p, bs, k + 1), bs[k] = bs[k - 1] + 1))
  IN [i \in DOMAIN ks |-> bs[ks[i]]]
Segmented(p) == LET s == TLCEval(Starts(p)) IN [i \in DOMAIN s |-> <<s[i], IF i = Len(s) THEN Len(p) ELSE s[i + 1] - 1>>]
=============================================================================
