----------------------------- MODULE MCOddArguments -----------------------------
(* Arguments of two bytes, one of them any: what begins with '-' is an option (and *)
(* an unknown one is refused), though a file has that name; all others are files.   *)
EXTENDS Cli, Json
CONSTANTS Show
VARIABLES tool, odd, first
vars == <<tool, odd, first>>
Bytes == 1..255 \ {47}
Init == /\ tool \in DOMAIN Tools /\ first \in BOOLEAN
        /\ odd \in {<<DASH, x>> : x \in Bytes} \cup {<<x, 115>> : x \in Bytes \ {DASH}}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Files == CASE tool \in {"editopcost", "ngram", "wordfreq", "accdist", "wordaccdist"} -> << <<97>> >>
           [] tool = "nonstopacc" -> IF odd[1] = DASH THEN << <<97>>, <<98>> >> ELSE << <<97>> >>
           [] OTHER -> IF odd[1] # DASH /\ Tools[tool].out THEN << <<97>> >> ELSE << <<97>>, <<98>> >>
Args == IF first THEN <<odd>> \o Files ELSE Files \o <<odd>>
Exists == {<<97>>, <<98>>, <<45>>, <<83>>, odd}
R == Interpret(tool, Args, Exists)
OnlyKnownOptions == odd[1] = DASH /\ odd[2] \notin Tools[tool].flags \cup Tools[tool].vals \cup {104} => R.res = "error"
OthersAreFiles == odd[1] # DASH => R.res = "run" /\ odd \in {R.files[i] : i \in DOMAIN R.files}
Emit == Show => PrintT(<<"HISTORY", ToJson([tool |-> tool, args |-> Args, make |-> odd, res |-> R.res, canon |-> IF R.res = "run" THEN Canonical(R) ELSE <<>>])>>)
=============================================================================
