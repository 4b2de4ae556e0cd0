--------------------------------- MODULE MCCli ---------------------------------
(* A user types a command line, argument by argument, and enters it; the scanner   *)
(* takes it apart. Printing the outcomes gives the command lines to replay.        *)
EXTENDS Cli, Json
CONSTANTS ToolNos, MaxLen, Show, Sensible
VARIABLES tool, args, st
vars == <<tool, args, st>>
(* file names a, b, -, n (does not exist), empty; options -x, -h, -hel, -hex, -helpx, -- *)
Common == {<<97>>, <<98>>, <<45>>, <<>>, <<110>>, <<45, 120>>, <<45, 104>>, <<45, 104, 101, 108>>, <<45, 104, 101, 120>>, <<45, 104, 101, 108, 112, 120>>, <<45, 45>>}
Names == <<"synctext", "vote", "ngram", "wordacc", "editop", "accuracy", "groupacc", "nonstopacc", "editopcost", "accsum", "wordaccdist", "wordfreq",
           "wordaccsum", "editopsum", "accci", "wordaccci", "accdist">>
Special == [synctext |-> {<<45, 72>>, <<45, 105>>, <<45, 115>>, <<45, 84>>, <<45, 72, 105>>, <<45, 104, 72>>},
            vote |-> {<<45, 79>>, <<45, 68>>, <<45, 111>>, <<45, 111, 118>>, <<45, 115>>, <<45, 115, 49, 47, 50>>, <<49, 47, 50>>, <<45, 119>>, <<45, 119, 50, 47, 51>>, <<45, 115, 50, 47, 49>>},
            ngram |-> {<<45, 110>>, <<45, 110, 50>>, <<50>>, <<51>>, <<45, 110, 52>>, <<45, 110, 50, 50>>},
            wordacc |-> {<<45, 83>>, <<45, 83, 83>>, <<83>>, <<45, 83, 110>>},
            editop |-> {<<45, 68>>, <<45, 68, 68>>}]
Files == {<<97>>, <<98>>, <<45>>}
Exists == Files \cup {<<83>>}
(* Sensible: only arguments that can be part of a valid command line *)
Alphabet(t) == LET sp == IF t \in DOMAIN Special THEN Special[t] ELSE {}
                   out == IF Tools[t].out THEN {<<118>>} ELSE {}
               IN IF Sensible THEN Files \cup out \cup (sp \ {<<45, 72, 105>>, <<45, 104, 72>>, <<45, 115, 50, 47, 49>>, <<45, 110, 52>>, <<45, 110, 50, 50>>, <<45, 83, 110>>, <<45, 68, 68>>})
                  ELSE Common \cup sp \cup out
G == Tools[tool]
Init == tool \in {Names[i] : i \in ToolNos} /\ args = <<>> /\ st = [Start EXCEPT !.res = "typing"]
Type == st.res = "typing" /\ Len(args) < MaxLen /\ \E a \in Alphabet(tool) : args' = Append(args, a) /\ UNCHANGED <<tool, st>>
Enter == st.res = "typing" /\ (Sensible => Len(args) = MaxLen) /\ st' = Start /\ UNCHANGED <<tool, args>>
Scanning == st.res = "scanning" /\ st' = Step(G, args, st) /\ UNCHANGED <<tool, args>>
Next == Type \/ Enter \/ Scanning
Spec == Init /\ [][Next]_vars /\ WF_vars(Enter) /\ WF_vars(Scanning)
Done == st.res \notin {"typing", "scanning"}
SameRequest(x, y) == x.flags = y.flags /\ x.vals = y.vals /\ x.files = y.files
(* Nothing is lost: each argument is a file, an option, or the value of one. *)
Accounted == st.res = "run" => Len(args) >= Len(st.files) + Cardinality(st.flags) + Cardinality(DOMAIN st.vals)
                               /\ Len(args) <= Len(st.files) + Cardinality(st.flags) + 2 * Cardinality(DOMAIN st.vals)
(* The canonical command line makes the same request, wherever the options stood. *)
OrderIrrelevant == st.res = "run" /\ args # <<>> => LET c == Scan(G, Canonical(st), Start) IN c.res = "run" /\ SameRequest(c, st)
(* Moving a flag past a file name changes nothing. *)
Swap(k) == SubSeq(args, 1, k - 1) \o <<args[k + 1], args[k]>> \o SubSeq(args, k + 2, Len(args))
FlagMoves == st.res = "run" => \A k \in 1..(Len(args) - 1) :
    LET p == Scan(G, SubSeq(args, 1, k - 1) \o << <<97>> >>, Start)
    IN (/\ p.res = "run" /\ Len(p.files) >= 1 /\ p.files[Len(p.files)] = <<97>> /\ p.i = k + 1     \* position k starts an argument
        /\ (k = 1 \/ Scan(G, SubSeq(args, 1, k - 1), Start).res = "run")
        /\ IsOption(args[k]) /\ Letter(args[k]) \in G.flags /\ ~IsOption(args[k + 1]))
       => SameRequest(Scan(G, Swap(k), Start), st)
Emit == Show /\ Done => LET r == Interpret(tool, args, Exists)
                        IN PrintT(<<"HISTORY", ToJson([tool |-> tool, args |-> args, res |-> r.res, canon |-> IF r.res = "run" THEN Canonical(r) ELSE <<>>])>>)
Ends == [](st.res = "scanning" => <>Done)
=============================================================================
