------------------------------ MODULE MCDisplay ------------------------------
(* Displayed characters in reports, {...}, are read back byte by byte. Whatever  *)
(* way a character is displayed, the reader ends with that character; damaged    *)
(* forms of these are refused or read as another character, never left pending.  *)
EXTENDS CharTable, Utf8
CONSTANTS Points, Circled, Damage
VARIABLES c, kind, in, pos, st, acc, val
vars == <<c, kind, in, pos, st, acc, val>>
Values0 == Points \cup UNION {{16 * q - 1, 16 * q} : q \in Points} \cup {0, 10, 32, 60, 62, 92, 110, 123, 125, 127, 128, 255, 256, 2047, 2048, CIRCLE, 55295, 57344, 65535, 65536, 1114111}
Scalars == {q \in Values0 : IsScalar(q)}
FormOf(q, k) == IF q = NL THEN FakeNL ELSE ShownAs(q, k)
(* Kinds a character can have: of those below U+00A0 only graphic ASCII is shown as itself; marks are from U+0300. *)
KindsOf(q) == (IF q < 32 \/ q \in 127..159 THEN {0} ELSE IF q < 127 THEN {1} ELSE {0, 1}) \cup (IF q >= 768 THEN {2} ELSE {})
Frame(s) == <<123>> \o s \o <<125>>
Damaged(s) == {s} \cup (IF Damage THEN {SubSeq(s, 1, i) \o SubSeq(s, i + 1 + n, Len(s)) : i \in 0..(Len(s) - 1), n \in {1}} ELSE {})
Init == /\ c \in Scalars /\ kind \in KindsOf(c) /\ in \in {Append(x, 10) : x \in Damaged(Frame(FormOf(c, kind)))}
        /\ pos = 1 /\ st = "start" /\ acc = DecInit /\ val = 0
B == in[pos]
HexVal(b) == CASE b \in 48..57 -> b - 48 [] b \in 65..70 -> b - 55 [] b \in 97..102 -> b - 87 [] OTHER -> -1
Go(s) == st' = s /\ pos' = pos + 1 /\ UNCHANGED <<c, kind, in>>
Active == st \notin {"ok", "bad"}
Start == st = "start" /\ Go(IF B = 123 THEN "first" ELSE "bad") /\ UNCHANGED <<acc, val>>
First == /\ st = "first"
         /\ IF B = 60 THEN Go("angle") /\ UNCHANGED <<acc, val>>
            ELSE LET d == DecStep(DecInit, B)
                 IN /\ acc' = d /\ val' = IF d.need = 0 /\ d.err = "" THEN d.out[1] ELSE val
                    /\ Go(IF d.err # "" THEN "bad" ELSE IF d.need = 0 THEN "close" ELSE "utf8")
Utf8More == /\ st \in {"utf8", "mark"}
            /\ LET d == DecStep(acc, B)
               IN /\ acc' = d /\ val' = IF d.need = 0 /\ d.err = "" THEN d.out[1] ELSE val
                  /\ Go(IF d.err # "" THEN "bad" ELSE IF d.need > 0 THEN st
                        ELSE IF st = "utf8" /\ d.out[1] = CIRCLE THEN "circle" ELSE "close")
Circle == /\ st = "circle"
          /\ IF B = 125 THEN Go("end") /\ UNCHANGED <<acc, val>>
             ELSE LET d == DecStep(DecInit, B)        \* the mark itself; never ASCII
                  IN /\ acc' = d /\ val' = val /\ Go(IF d.err # "" \/ d.need = 0 THEN "bad" ELSE "mark")
Angle == /\ st = "angle"
         /\ CASE B = 125 -> val' = 60 /\ acc' = acc /\ Go("end")
              [] B = 92 -> val' = 10 /\ acc' = acc /\ Go("letter")
              [] HexVal(B) >= 0 -> val' = HexVal(B) /\ acc' = acc /\ Go("hex")
              [] OTHER -> UNCHANGED <<acc, val>> /\ Go("bad")
Letter == st = "letter" /\ UNCHANGED <<acc, val>> /\ Go(IF B = 110 THEN "right" ELSE "bad")
HexMore == /\ st = "hex"
           /\ CASE HexVal(B) >= 0 /\ val < 16777216 -> val' = (16 * val) + HexVal(B) /\ acc' = acc /\ Go("hex")
                [] B = 62 -> UNCHANGED <<acc, val>> /\ Go("close")
                [] OTHER -> UNCHANGED <<acc, val>> /\ Go("bad")
Right == st = "right" /\ UNCHANGED <<acc, val>> /\ Go(IF B = 62 THEN "close" ELSE "bad")
Close == st = "close" /\ UNCHANGED <<acc, val>> /\ Go(IF B = 125 THEN "end" ELSE "bad")
End == st = "end" /\ UNCHANGED <<acc, val>> /\ Go(IF B = 10 /\ IsScalar(val) THEN "ok" ELSE "bad")
Next == Active /\ (Start \/ First \/ Utf8More \/ Circle \/ Angle \/ Letter \/ HexMore \/ Right \/ Close \/ End)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Whole == in = Append(Frame(FormOf(c, kind)), 10)
ReadBack == /\ st = "ok" /\ Whole => val = c
            /\ st = "bad" => ~Whole
InBounds == Active => pos <= Len(in)
Ends == <>(~Active)
(* Up to three characters side by side are told apart by their displayed form. *)
Seqs == UNION {[1..n -> Circled] : n \in 1..3}
Form(q) == FormOf(q, IF q < 32 THEN 0 ELSE IF q = 769 THEN 2 ELSE 1)
Distinct == pos = 1 /\ c = 0 /\ kind = 0 => \A n \in 1..3 : LET S == [1..n -> Circled] IN Cardinality({FlattenSeq([i \in 1..n |-> Form(s[i])]) : s \in S}) = Cardinality(S)
=============================================================================
