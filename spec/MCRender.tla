------------------------------- MODULE MCRender -------------------------------
(* A reader of synchronized text output, as a machine that consumes it byte by   *)
(* byte: for all alignments within the constants (texts without braces) it       *)
(* rebuilds the segments and every text.                                         *)
EXTENDS Render
CONSTANTS MaxLen, Names
VARIABLES texts, segs, in, mode, k, t, got, body
vars == <<texts, segs, in, mode, k, t, got, body>>
Alphabet == {97, NL, 32}
All == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
N == IF Names = 1 THEN <<<<65>>, <<66, 66>>>> ELSE <<<<65>>, <<66>>, <<67, 67>>>>
W == Width(N)
T(x) == [i \in DOMAIN x |-> Unmarked(x[i])]
Init == /\ texts \in [DOMAIN N -> All]
        /\ segs = Heuristic(texts)
        /\ in = SubSeq(Synctext(T(texts), N, segs, FALSE), 82, Len(Synctext(T(texts), N, segs, FALSE)))   \* after the first rule and newline
        /\ mode = "matches" /\ k = 0 /\ t = 0 /\ body = <<>> /\ got = <<>>    \* got: pieces of matches; then contents of differences
Starts_(p) == Len(in) >= Len(p) /\ SubSeq(in, 1, Len(p)) = p
Take(n) == in' = SubSeq(in, n + 1, Len(in))
(* matches: text and placeholders up to a newline and a rule *)
ReadMatch == /\ mode = "matches"
             /\ IF Starts_(<<NL>> \o Rule79) THEN mode' = "rule" /\ Take(1) /\ UNCHANGED <<k, t, got, body>>
                ELSE IF Starts_(Placeholder(k + 1)) THEN k' = k + 1 /\ Take(Len(Placeholder(k + 1))) /\ got' = Append(got, [m |-> FALSE, c |-> <<>>]) /\ UNCHANGED <<mode, t, body>>
                ELSE /\ Take(1) /\ UNCHANGED <<mode, t, k, body>>
                     /\ got' = IF got # <<>> /\ got[Len(got)].m THEN [got EXCEPT ![Len(got)].c = Append(@, in[1])] ELSE Append(got, [m |-> TRUE, c |-> <<in[1]>>])
             /\ UNCHANGED <<texts, segs>>
ReadRule == /\ mode = "rule" /\ Starts_(Rule79)
            /\ IF Len(in) = 80 THEN mode' = "end" /\ in' = <<>> /\ UNCHANGED <<t, body>>
               ELSE LET h == Rule79 \o Placeholder(Len(body) + 1) \o <<NL>>
                    IN Starts_(h) /\ Take(Len(h)) /\ mode' = "label" /\ t' = 1 /\ body' = Append(body, <<>>)
            /\ UNCHANGED <<texts, segs, k, got>>
ReadLabel == /\ mode = "label"
             /\ IF t > Len(N) THEN mode' = "rule" /\ UNCHANGED <<in, body>>
                ELSE LET h == Padded(N[t], W) \o <<32, 123>>
                     IN Starts_(h) /\ Take(Len(h)) /\ mode' = "content" /\ body' = [body EXCEPT ![Len(body)] = Append(@, <<>>)]
             /\ UNCHANGED <<texts, segs, k, got, t>>
ReadContent == /\ mode = "content"
               /\ IF in[1] = 125 THEN mode' = "label" /\ t' = t + 1 /\ Take(2) /\ UNCHANGED body
                  ELSE /\ UNCHANGED <<mode, t>> /\ body' = [body EXCEPT ![Len(body)][t] = Append(@, in[1])]
                       /\ IF in[1] = NL THEN Starts_(<<NL>> \o Repeat(32, W + 2)) /\ Take(W + 3) ELSE Take(1)
               /\ UNCHANGED <<texts, segs, k, got>>
Next == ReadMatch \/ ReadRule \/ ReadLabel \/ ReadContent
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ended == mode = "end"
Nth(i) == Cardinality({j \in 1..i : ~got[j].m})
Rebuilt(u) == FlattenSeq([i \in DOMAIN got |-> IF got[i].m THEN got[i].c ELSE body[Nth(i)][u]])
Correct == Ended => /\ \A u \in DOMAIN N : Rebuilt(u) = texts[u]
                    /\ Len(body) = k
                    /\ [i \in DOMAIN got |-> got[i].m] = [i \in DOMAIN segs |-> segs[i].m]
Reads == <>Ended
=============================================================================
