----------------------------- MODULE MCWordBreaks -----------------------------
(* The scanner behind find_words as a machine: it extends a segment one base at a *)
(* time, looking one base behind and ahead. For all property sequences within the *)
(* constants it ends with the declared segments; segments tile the text.          *)
EXTENDS WordBreaks
CONSTANTS Classes, MaxLen
VARIABLES p, start, cur, behind, segs
vars == <<p, start, cur, behind, segs>>
Init == p \in UNION {[1..n -> Classes] : n \in 0..MaxLen} /\ start = 1 /\ cur = 1 /\ behind = Edge /\ segs = <<>>
Busy == start <= Len(p)
Prop(i) == IF i > Len(p) THEN Edge ELSE p[i]
RECURSIVE Skip(_)
Skip(i) == IF i >= Len(p) THEN Len(p) + 1 ELSE IF p[i + 1] \in Ignored THEN Skip(i + 1) ELSE i + 1
RECURSIVE LastIgnored(_)
LastIgnored(i) == IF i < Len(p) /\ p[i + 1] \in Ignored THEN LastIgnored(i + 1) ELSE i
Close(e) == segs' = Append(segs, <<start, e>>) /\ start' = e + 1 /\ cur' = e + 1 /\ behind' = Edge /\ p' = p
Step == /\ Busy
        /\ IF p[cur] = CR /\ Prop(cur + 1) = LF THEN Close(cur + 1)
           ELSE IF p[cur] \in Breaking THEN Close(cur)
           ELSE LET n == Skip(cur)
                IN IF n <= Len(p) /\ NoBreak(behind, p[cur], p[n], Prop(Skip(n)), n = cur + 1)
                   THEN cur' = n /\ behind' = p[cur] /\ UNCHANGED <<p, start, segs>>
                   ELSE Close(LastIgnored(cur))
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Declared == ~Busy => segs = Segmented(p)
Tiles == ~Busy => /\ (p # <<>> => segs[1][1] = 1 /\ segs[Len(segs)][2] = Len(p))
                  /\ \A i \in DOMAIN segs : segs[i][1] <= segs[i][2] /\ (i > 1 => segs[i][1] = segs[i - 1][2] + 1)
NeverInside == ~Busy => \A i \in DOMAIN segs : LET s == segs[i] IN   \* a line break is a segment of its own
                          (\E j \in s[1]..s[2] : p[j] \in Breaking) => s[1] = s[2] \/ (p[s[1]] = CR /\ s[2] = s[1] + 1 /\ p[s[2]] = LF)
Ends == <>(~Busy)
=============================================================================
