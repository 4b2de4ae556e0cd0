-------------------------------- MODULE TraceCli --------------------------------
(* Each event is one command line given to the real tool, in a directory of files,  *)
(* with the outcome of its canonical form in an equal directory.                    *)
EXTENDS TraceBase, Cli
Failed(cs) == {c[1] : c \in {x \in cs : ~x[2]}}
Set(s) == {s[i] : i \in DOMAIN s}
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
USAGE == <<85, 115, 97, 103, 101, 58>>
COLON == <<58, 32>>
(* The name of the tool, as bytes, is in the event. *)
UsageLine(e) == Len(e.err) = 1 /\ StartsWith(e.err[1], USAGE) /\ \E k \in DOMAIN e.err[1] : StartsWith(SubSeq(e.err[1], k, Len(e.err[1])), e.name)
ErrorLine(e) == Len(e.err) = 1 /\ StartsWith(e.err[1], e.name \o COLON) /\ Len(e.err[1]) > Len(e.name) + 2
(* The message may repeat an argument: where an argument has newlines, so may the message. *)
Newlines(args) == Cardinality({p \in {<<i, j>> : i \in DOMAIN args, j \in 1..200} : p[2] \in DOMAIN args[p[1]] /\ args[p[1]][p[2]] = 10})
ErrorMessage(e) == ErrorLine(e) \/ (/\ Newlines(e.args) > 0
                                   /\ Len(e.err) \in 1..(1 + Newlines(e.args))
                                   /\ StartsWith(e.err[1], e.name \o COLON))
OutputFile(e, r) == LET g == Tools[e.tool]
                    IN (IF g.out /\ Len(r.files) = g.max THEN {r.files[g.max]} ELSE {})
                       \cup (IF e.tool = "vote" /\ 111 \in DOMAIN r.vals THEN {r.vals[111]} ELSE {})
Line(e) ==
  LET r == TLCEval(Interpret(e.tool, e.args, Set(e.exists)))
      res == r.res
  IN Failed(
      {<<"usage-expected", res = "usage" => e.rc = 0 /\ e.nout = 0 /\ UsageLine(e)>>,
       <<"error-expected", res = "error" => e.rc # 0 /\ e.rc > 0 /\ e.rc < 128 /\ e.nout = 0 /\ ErrorMessage(e)>>,
       <<"success-expected", res = "run" => e.rc = 0 /\ Len(e.err) = 0>>,
       <<"replay-of-another-command-line", res = "run" => e.canon = Canonical(r)>>,
       <<"outcome-depends-on-the-places-of-options", res = "run" => e.same>>,
       <<"other-files-changed", Set(e.changed) \subseteq (IF res = "run" THEN OutputFile(e, r) ELSE {})>>,
       <<"output-not-written", res = "run" => OutputFile(e, r) \subseteq Set(e.there) /\ (OutputFile(e, r) = {} => e.nout > 0)>>})
(* n times the same file *)
Repeat(e) ==
  LET g == Tools[e.tool]
      ok == e.n >= g.min /\ e.n <= g.max
  IN Failed({<<"error-expected", ~ok => e.rc > 0 /\ e.rc < 128 /\ e.nout = 0 /\ ErrorLine(e)>>,
             <<"success-expected", ok => e.rc = 0 /\ (e.nout > 0 \/ (g.out /\ e.n = g.max)) /\ Len(e.err) = 0>>,
             <<"files-not-all-counted", ok /\ e.one > 0 => e.total = e.n * e.one>>})
(* Requests that differ in their options have different outcomes on the prepared files. *)
Effect(e) == Failed({<<"option-without-effect", \A i, j \in DOMAIN e.outcomes : i # j => e.outcomes[i] # e.outcomes[j]>>})
Judge(e) == CASE e.k = "line" -> Line(e) [] e.k = "repeat" -> Repeat(e) [] e.k = "effect" -> Effect(e)
TraceNext == l < Len(Log) /\ Consume(Judge(Log[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
