------------------------------ MODULE TraceBase ------------------------------
(* Validation of recorded runs. Each line of the trace is one run of a tool  *)
(* (or one step of a tool that shows its steps); a trace module extends this *)
(* with Judge(e): the names of the clauses of the specification that the     *)
(* event e contradicts. One state per event; rejected events are printed and *)
(* validation continues, so that all of a trace is judged.                   *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TraceInit == l = 0
Consume(clauses) == /\ l < Len(Log)
                    /\ l' = l + 1
                    /\ IF clauses = {} THEN TRUE ELSE PrintT(<<"REJECT", l + 1, clauses>>)
If(name, holds) == IF holds THEN {} ELSE {name}
Complete == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
