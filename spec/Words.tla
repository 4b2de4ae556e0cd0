--------------------------------- MODULE Words ---------------------------------
(* The words of a text: its segments that start with a word character, in lower   *)
(* case and Normalization Form C, as sequences of bytes.                           *)
EXTENDS WordBreaks, CharTable
LowerValues(t) == [i \in DOMAIN t |-> Lower(t[i].v)]
WordSegments(v) == SelectSeq(Segmented([i \in DOMAIN v |-> WB(v[i])]), LAMBDA s : WordStart(v[s[1]]))
WordsOfValues(v) == LET s == TLCEval(WordSegments(v)) IN [i \in DOMAIN s |-> Encode(NFC(SubSeq(v, s[i][1], s[i][2])))]
WordsOf(raw) == WordsOfValues(TLCEval(LowerValues(ReadText(raw))))
StopwordsIn(raw) == WordsOfValues(TLCEval(LowerValues(ReadPlain(raw))))
(* Occurrences, as a function. *)
Occurrences(ws) == FoldLeft(LAMBDA f, x : TLCEval(IF x \in DOMAIN f THEN [f EXCEPT ![x] = @ + 1] ELSE [y \in DOMAIN f \cup {x} |-> IF y = x THEN 1 ELSE f[y]]), <<>>, ws)
=============================================================================
