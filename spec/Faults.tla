--------------------------------- MODULE Faults ---------------------------------
(* A run reads its inputs in order, computes, creates its output, writes it byte by *)
(* byte, closes it, and exits; faults strike on the way.                            *)
EXTENDS Naturals, Sequences, FiniteSets
(* Kinds of input: text, stop (a list of stopwords), acc, wac, edo (reports).        *)
Reports == {"acc", "wac", "edo"}
(* Conditions of an input:                                                           *)
(*   missing, directory, noname (an empty name): it cannot be opened or read         *)
(*   otherkind, title, divider: a report that does not begin as its kind does        *)
(*   nonumber: a required count is not a number; short: it ends before the last one  *)
(*   range: a length or character out of range                                       *)
(*   notutf8: a text that is not UTF-8; header: vendor output given as correct text   *)
(*   twice: a stopword named twice (a warning)                                              *)
(*   toolong: more than 65,535 words that are in both texts (the limit of wordacc)   *)
(*   noise: other damage, which may or may not be noticed                            *)
Conditions == {"ok", "missing", "directory", "noname", "otherkind", "title", "divider", "nonumber", "short", "range", "notutf8", "header", "twice", "toolong", "noise"}
CompareTools == {"accuracy", "wordacc", "editop"}
Refuses(tool, pos, kind, cond) ==
  \/ cond \in {"missing", "directory", "noname"}
  \/ kind \in Reports /\ cond \in {"otherkind", "title", "divider", "nonumber", "short", "range"}
  \/ kind \in {"text", "stop"} /\ cond = "notutf8"
  \/ tool = "wordacc" /\ pos = 1 /\ cond = "toolong"
  \/ kind = "text" /\ cond = "header" /\ tool \in CompareTools /\ pos = 1
Uncertain(tool, pos, kind, cond) == cond = "noise" /\ ~Refuses(tool, pos, kind, cond)
(* Conditions that make sense for a kind *)
Applies(kind, cond) ==
  cond \in CASE kind = "text" -> {"ok", "missing", "directory", "noname", "notutf8", "header", "noise"}
             [] kind = "stop" -> {"ok", "missing", "directory", "noname", "notutf8", "twice"}
             [] kind = "acc" -> {"ok", "missing", "directory", "noname", "otherkind", "title", "divider", "nonumber", "short", "range", "noise"}
             [] kind = "wac" -> {"ok", "missing", "directory", "noname", "otherkind", "title", "divider", "nonumber", "short", "range", "noise"}
             [] kind = "edo" -> {"ok", "missing", "directory", "noname", "otherkind", "title", "divider", "nonumber", "short", "range", "noise"}
(* The output: where it goes and what is wrong with it. limit: the number of bytes for which there is room. *)
OutConditions == {"ok", "uncreatable", "limit", "closed"}
Plans == [accuracy |-> <<"text", "text">>, editop |-> <<"text", "text">>, wordacc |-> <<"text", "text", "stop">>, groupacc |-> <<"text", "acc">>,
          nonstopacc |-> <<"text", "wac">>, synctext |-> <<"text", "text">>, vote |-> <<"text", "text", "text">>, ngram |-> <<"text", "text">>, wordfreq |-> <<"text", "text">>,
          accsum |-> <<"acc", "acc">>, accci |-> <<"acc", "acc">>, accdist |-> <<"acc", "acc">>, wordaccsum |-> <<"wac", "wac">>, wordaccci |-> <<"wac", "wac">>,
          wordaccdist |-> <<"wac", "wac">>, editopsum |-> <<"edo", "edo">>, editopcost |-> <<"edo", "edo">>]
(* tools that can be told to write into a named file *)
Named == {"accuracy", "editop", "wordacc", "groupacc", "vote"}
(* What must be true of the outcome. *)
MustRefuse(tool, conds) == \E i \in DOMAIN conds : Refuses(tool, i, Plans[tool][i], conds[i])
MayRefuse(tool, conds) == MustRefuse(tool, conds) \/ \E i \in DOMAIN conds : Uncertain(tool, i, Plans[tool][i], conds[i])
OutputFails(out, limit, length) == out \in {"uncreatable", "closed"} \/ (out = "limit" /\ limit < length)
=============================================================================
