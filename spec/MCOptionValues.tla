---------------------------- MODULE MCOptionValues ----------------------------
(* All values up to some length that a user may give to an option that has one;   *)
(* the outcomes are printed to be replayed.                                        *)
EXTENDS Cli, Json
CONSTANTS Show, Deep
VARIABLES tool, letter, value, attached
vars == <<tool, letter, value, attached>>
Signs == {9, 10, 32, 43, 45, 46, 47, 48, 49, 50, 51, 57, 58, 61, 97}
Digits == 46..58
Short == UNION {[1..n -> Signs] : n \in 1..(IF Deep THEN 3 ELSE 2)}
Fractions == {<<x, s, y>> : x \in Digits, s \in {46, 47, 48}, y \in Digits}
Longer == {f \o <<x>> : f \in {<<49, 47, 50>>, <<57, 47, 57>>, <<50, 47, 49>>, <<51, 47, 52>>}, x \in Signs} \cup {<<x>> \o f : f \in {<<49, 47, 50>>, <<57, 47, 57>>}, x \in Signs}
Values(t) == IF t = "vote" THEN Short \cup Fractions \cup Longer ELSE Short
Init == /\ tool \in {"vote", "ngram"} /\ letter \in (Tools[tool].vals \ {111})
        /\ value \in Values(tool) /\ attached \in BOOLEAN
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Files == IF tool = "vote" THEN << <<97>>, <<98>> >> ELSE << <<97>> >>
Args == (IF attached THEN << <<DASH, letter>> \o value >> ELSE << <<DASH, letter>>, value >>) \o Files
Exists == {<<97>>, <<98>>, <<45>>, <<83>>}
R == Interpret(tool, Args, Exists)
(* the scanner always finds the value, however it is given *)
Found == Scan(Tools[tool], Args, Start).vals = (letter :> value)
FewValuesAreMeaningful == R.res = "run" => IF tool = "ngram" THEN Len(value) = 1 ELSE Len(value) = 3 /\ value[1] <= value[3]
Emit == Show => PrintT(<<"HISTORY", ToJson([tool |-> tool, args |-> Args, res |-> R.res, canon |-> IF R.res = "run" THEN Canonical(R) ELSE <<>>])>>)
=============================================================================
