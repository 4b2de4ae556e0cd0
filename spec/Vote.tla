---------------------------------- MODULE Vote ----------------------------------
(* Voting. Voters are texts of characters [v, s]; a rule is [uw, sw, th]: the      *)
(* weight of an unmarked and of a suspect vote, and the number of votes up to      *)
(* which an output character is marked (-1: never).                               *)
EXTENDS Sync, TLC
End == -1
Rule(uw, sw, voters, m, n) == [uw |-> uw, sw |-> sw, th |-> IF n = 0 THEN 0 ELSE (voters * uw * m) \div n]
(* What voter t votes for at its position p of a segment. *)
Choice(texts, s, p, t) == IF p[t] > s.hi[t] THEN Ch(End, FALSE) ELSE texts[t][p[t]]
(* The votes of candidate c in a round, given everyone's choice. *)
Tally(ch, rule, c) == SumSeq([t \in DOMAIN ch |-> IF ch[t].v # c THEN 0 ELSE IF ch[t].s THEN rule.sw ELSE rule.uw])
Candidates(ch) == {ch[t].v : t \in DOMAIN ch} \ {REJ}
First(ch, c) == SelectInSeq(ch, LAMBDA x : x.v = c)
Elected(ch, rule) == CHOOSE c \in Candidates(ch) : \A d \in Candidates(ch) \ {c} :
                       Tally(ch, rule, c) > Tally(ch, rule, d) \/ (Tally(ch, rule, c) = Tally(ch, rule, d) /\ First(ch, c) < First(ch, d))
(* The outcome of a round: end of segment, or a character of the output. *)
Outcome(ch, rule) == IF Candidates(ch) = {} THEN Ch(REJ, FALSE)
                     ELSE LET c == Elected(ch, rule) IN Ch(c, c # End /\ Tally(ch, rule, c) <= rule.th)
RECURSIVE VoteSegment(_, _, _, _, _)
VoteSegment(texts, s, p, rule, out) ==
  LET ch == TLCEval([t \in DOMAIN texts |-> Choice(texts, s, p, t)])
      o == Outcome(ch, rule)
  IN IF o.v = End THEN out
     ELSE VoteSegment(texts, s, TLCEval([t \in DOMAIN p |-> IF p[t] > s.hi[t] THEN p[t] ELSE p[t] + 1]), rule, TLCEval(Append(out, o)))
Voted(texts, segs, rule) == FoldLeft(LAMBDA out, s : VoteSegment(texts, s, s.lo, rule, out), <<>>, segs)

(***************************************************************************)
(* Optimized voting: the distance of a text from the median of all texts.  *)
(* Everything is doubled, so that medians are integers.                    *)
(***************************************************************************)
PairsOf(t) == IF Len(t) < 2 THEN <<>> ELSE [i \in 1..(Len(t) - 1) |-> <<t[i].v, t[i + 1].v>>]
Tallied(s) == FoldLeft(LAMBDA f, x : TLCEval(IF x \in DOMAIN f THEN [f EXCEPT ![x] = @ + 1] ELSE [y \in DOMAIN f \cup {x} |-> IF y = x THEN 1 ELSE f[y]]), <<>>, s)
Of(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
Median2(ns) == LET s == SortSeq(ns, <)
                   n == Len(s)
               IN IF n % 2 = 1 THEN 2 * s[n \div 2 + 1] ELSE s[n \div 2] + s[n \div 2 + 1]
AbsDiff(a, b) == IF a > b THEN a - b ELSE b - a
(* F: for each text, a function from its pairs to their numbers of occurrences. *)
DistancesOf(F) ==
  LET D == UNION {DOMAIN F[t] : t \in DOMAIN F}
      med == TLCEval([x \in D |-> IF REJ \in {x[1], x[2]} THEN 0 ELSE Median2([t \in DOMAIN F |-> Of(F[t], x)])])
      ds == SetToSeq(D)
  IN [t \in DOMAIN F |-> FoldLeft(LAMBDA n, x : n + AbsDiff(2 * Of(F[t], x), med[x]), 0, ds)]
Distances2(texts) == DistancesOf(TLCEval([t \in DOMAIN texts |-> Tallied(PairsOf(texts[t]))]))
(* The same for a text given as runs <<character, length>>. *)
RunPairs(r) ==
  LET add(f, x, n) == IF n = 0 THEN f ELSE IF x \in DOMAIN f THEN [f EXCEPT ![x] = @ + n] ELSE [y \in DOMAIN f \cup {x} |-> IF y = x THEN n ELSE f[y]]
  IN FoldLeft(LAMBDA f, i : add(IF i = 1 THEN f ELSE add(f, <<r[i - 1][1], r[i][1]>>, 1), <<r[i][1], r[i][1]>>, r[i][2] - 1), <<>>, [i \in DOMAIN r |-> i])
ByDistance(d) == SetToSortSeq(DOMAIN d, LAMBDA a, b : d[a] < d[b] \/ (d[a] = d[b] /\ a < b))
Chosen(texts) == LET o == ByDistance(Distances2(texts)) IN SubSeq(o, 1, Mn(3, Len(o)))
=============================================================================
