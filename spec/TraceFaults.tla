------------------------------- MODULE TraceFaults -------------------------------
(* Each event is a run of a tool under a fault, with its outcome: rc (negative when *)
(* ended by a signal or the time limit), the lines of standard error, nout (bytes of *)
(* standard output), kept (every file but the output is as before), outkept (so is   *)
(* the named output), same (the result is that of an undisturbed run).               *)
EXTENDS TraceBase, Faults
Failed(cs) == {c[1] : c \in {x \in cs : ~x[2]}}
COLON == <<58, 32>>
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
(* A list that names a stopword twice causes a warning. *)
Warning(e) == IF e.k = "input" /\ "twice" \in {e.conds[i] : i \in DOMAIN e.conds} THEN 1 ELSE 0
Line(e, x) == StartsWith(x, e.name \o COLON) /\ Len(x) > Len(e.name) + 2
Says(e) == Len(e.err) \in 1..(1 + Warning(e)) /\ \A i \in DOMAIN e.err : Line(e, e.err[i])
Refused(e) == e.rc > 0 /\ e.rc < 128 /\ Says(e)
Succeeded(e) == e.rc = 0 /\ Len(e.err) = Warning(e) /\ \A i \in DOMAIN e.err : Line(e, e.err[i])
Always(e) == {<<"crashed-or-hung", e.rc >= 0 /\ e.rc < 128>>, <<"inputs-modified", e.kept>>, <<"neither-success-nor-failure", Refused(e) \/ Succeeded(e)>>}
Input(e) ==
  LET must == MustRefuse(e.tool, e.conds)
  IN Always(e) \cup {<<"accepted-bad-input", must => Refused(e)>>,
                     <<"refused-good-input", MayRefuse(e.tool, e.conds) \/ Succeeded(e)>>,
                     <<"wrote-result-although-refused", Refused(e) => e.nout = 0 /\ e.outkept>>}
Output(e) ==
  Always(e) \cup {<<"incomplete-output-not-reported", OutputFails(e.out, e.limit, e.length) => Refused(e)>>,
                  <<"failed-without-cause", ~OutputFails(e.out, e.limit, e.length) => Succeeded(e) /\ e.same>>}
Memory(e) == Always(e) \cup {<<"incomplete-result", Succeeded(e) => e.same>>}
Signal(e) == Always(e) \cup {<<"interrupt-ignored", Refused(e) /\ e.nout = 0 /\ e.outkept>>}
(* There are handles for a few open files only, fewer than inputs. *)
Handles(e) == Always(e) \cup {<<"too-many-open-files", Succeeded(e) /\ e.same>>}
(* A number of files that the tool does not take. *)
C == INSTANCE Cli
Args(e) == LET g == C!Tools[e.tool]
               max == IF e.tool = "synctext" /\ e.opt = "-T" THEN 2 ELSE g.max
           IN Always(e) \cup {<<"wrong-number-of-files-accepted", e.n < g.min \/ e.n > max => Refused(e) /\ e.nout = 0>>}
Judge(e) == Failed(CASE e.k = "input" -> Input(e) [] e.k = "output" -> Output(e) [] e.k = "memory" -> Memory(e) [] e.k = "signal" -> Signal(e) [] e.k = "handles" -> Handles(e) [] e.k = "args" -> Args(e))
TraceNext == l < Len(Log) /\ Consume(Judge(Log[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
