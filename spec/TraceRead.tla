------------------------------- MODULE TraceRead -------------------------------
(* C04, C05: what a tool read, seen through a vote among copies of one text in *)
(* which suspect characters stay suspect (-w 1/2 -s 1/2): the text itself.     *)
EXTENDS TraceBase, Utf8, CharTable
Rendered(t) == FlattenSeq([i \in DOMAIN t |-> ShownMarked([t[i] EXCEPT !.s = @ /\ t[i].v # REJ], TRUE)])
JudgeRead(e) ==
  LET d == Decode(Contents(e.bytes)) IN
  IF e.rc = -999 \/ e.rc < 0 THEN {"crashed-or-hung"}
  ELSE IF ~d.ok THEN If("refused", e.rc # 0) \cup If("no-output", e.out = <<>>) \cup If("message", e.msg)
  ELSE If("accepted", e.rc = 0) \cup
       (IF e.rc = 0 THEN If("content", e.out = Rendered(ReadText(d.t))) ELSE {})
(* accuracy: a header is refused in the correct text only *)
JudgeCorrect(e) ==
  IF e.rc < 0 THEN {"crashed-or-hung"}
  ELSE If("header-of-correct-text", (e.rc = 0) = (~HasHeader(e.bytes) /\ Decode(Contents(e.bytes)).ok))
(* two files with the same contents (marks aside, where words are concerned) *)
Read(bytes, words) == LET t == ReadText(Decode(Contents(bytes)).t) IN IF words THEN Unmarked(Values(t)) ELSE t
JudgeSameFile(e) == If("form-changes-result", Read(e.b1, e.words) = Read(e.b2, e.words) => e.same) \cup If("failed", e.ok)
(* two spacings of a text: same results *)
JudgeSame(e) == If("spacing-changes-result", ReadText(e.t1) = ReadText(e.t2) => e.same)
                \cup If("failed", e.ok)
Judge(e) == CASE e.k = "read" -> JudgeRead(e)  [] e.k = "samefile" -> JudgeSameFile(e) [] e.k = "correct" -> JudgeCorrect(e) [] OTHER -> JudgeSame(e)
TraceNext == l < Len(Log) /\ Consume(Judge(Log[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
