------------------------------- MODULE Account -------------------------------
(* What an accuracy report must say, given an alignment. The account is kept  *)
(* segment by segment (Step). A segment is [m |-> matched?, a |-> characters   *)
(* of the correct text, b |-> characters of the generated text].               *)
EXTENDS CharTable, CharClass
MaxDisplay == 24
Dots == <<46, 46, 46>>

(* A side of a confusion: the longest prefix of whole displayed characters     *)
(* that takes at most 24 bytes; "..." if that is not all of it.                *)
DisplaySide(t) ==
  LET W == FoldLeft(LAMBDA acc, c : IF acc.full THEN acc
                                    ELSE LET s == ShownInline(c.v)
                                         IN IF Len(acc.out) + Len(s) > MaxDisplay THEN [out |-> acc.out \o Dots, full |-> TRUE]
                                            ELSE [out |-> acc.out \o s, full |-> FALSE],
                    [out |-> <<>>, full |-> FALSE], t)
  IN W.out
DisplayKey(seg) == <<123>> \o DisplaySide(seg.a) \o <<125, 45, 123>> \o DisplaySide(seg.b) \o <<125>>

NoOps == [ins |-> 0, subst |-> 0, del |-> 0, errors |-> 0]
AddOps(x, y) == [f \in DOMAIN x |-> x[f] + y[f]]
EmptyAccount == [chars |-> 0, errors |-> 0, rejects |-> 0, suspects |-> 0, false |-> 0,
                 marked |-> NoOps, unmarked |-> NoOps,
                 char |-> <<>>,     \* function: code point -> <<count, missed>>
                 conf |-> <<>>]     \* function: displayed pair -> <<errors, marked>>
Bump(f, k, d) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = <<@[1] + d[1], @[2] + d[2]>>]
                 ELSE [x \in DOMAIN f \cup {k} |-> IF x = k THEN d ELSE f[x]]
Count(t, P(_)) == Len(SelectSeq(t, P))
IsRej(c) == c.v = REJ
SegmentOps(seg) ==
  LET c == Count(seg.a, LAMBDA x : ~IsRej(x))
      g == Mx(0, Len(seg.b) - Count(seg.a, IsRej))
  IN IF seg.m THEN NoOps
     ELSE [ins |-> Mx(0, c - g), subst |-> Mn(c, g), del |-> Mx(0, g - c), errors |-> Mx(c, g)]
IsMarked(seg) == \E i \in DOMAIN seg.b : IsRej(seg.b[i]) \/ seg.b[i].s
Step(acc, seg) ==
  LET ops == SegmentOps(seg)
      susp == Count(seg.b, LAMBDA x : x.s /\ ~IsRej(x))
      mk == IsMarked(seg)
  IN [acc EXCEPT
       !.chars = @ + Count(seg.a, LAMBDA x : ~IsRej(x)),
       !.errors = @ + ops.errors,
       !.rejects = @ + Count(seg.b, IsRej),
       !.suspects = @ + susp,
       !.false = @ + (IF seg.m THEN susp ELSE 0),
       !.marked = IF mk THEN AddOps(@, ops) ELSE @,
       !.unmarked = IF mk THEN @ ELSE AddOps(@, ops),
       !.char = FoldLeft(LAMBDA f, x : IF IsRej(x) THEN f ELSE Bump(f, x.v, <<1, IF seg.m THEN 0 ELSE 1>>), @, seg.a),
       !.conf = IF ops.errors = 0 THEN @ ELSE Bump(@, DisplayKey(seg), <<ops.errors, IF mk THEN ops.errors ELSE 0>>)]
AccountOf(segs) == FoldLeft(Step, EmptyAccount, segs)
Total(acc) == AddOps(acc.marked, acc.unmarked)

(* Figures that follow from the counts of characters. *)
SumOver(S, g(_)) == FoldLeft(LAMBDA x, y : x + g(y), 0, SetToSeq(S))
ClassesIn(acc) == {ClassOf(c) : c \in DOMAIN acc.char}
ClassCount(acc, n, k) == SumOver({c \in DOMAIN acc.char : ClassOf(c) = n}, LAMBDA c : acc.char[c][k])
CharTotal(acc, k) == SumOver(DOMAIN acc.char, LAMBDA c : acc.char[c][k])
ConfTotal(acc, k) == SumOver(DOMAIN acc.conf, LAMBDA c : acc.conf[c][k])

(* Order of the list of confusions: [e, m, k]. *)
ConfLess(x, y) == IF x[1] # y[1] THEN x[1] > y[1] ELSE IF x[2] # y[2] THEN x[2] > y[2] ELSE SeqLess(x[3], y[3])

(* Percentages with two decimals, as hundredths; -999999999 is "------". An    *)
(* exact tie may be rounded either way.                                        *)
NoPct == -999999999
Abs(n) == IF n < 0 THEN -n ELSE n
PctIs(h, num, den) == IF den = 0 THEN h = NoPct ELSE h # NoPct /\ 2 * Abs(h * den - 10000 * num) <= den

(* Consistency of any account (checked on all small alignments by MCAccount,   *)
(* and on every account computed for a trace).                                 *)
Consistent(acc) ==
  /\ acc.errors = Total(acc).errors
  /\ \A o \in {acc.marked, acc.unmarked} : o.errors = o.ins + o.subst + o.del
  /\ acc.chars = CharTotal(acc, 1)
  /\ acc.errors = ConfTotal(acc, 1) /\ acc.marked.errors = ConfTotal(acc, 2)
  /\ \A c \in DOMAIN acc.char : acc.char[c][2] <= acc.char[c][1]
  /\ CharTotal(acc, 2) = Total(acc).ins + Total(acc).subst
=============================================================================
