------------------------------ MODULE TraceKit ------------------------------
(* Common frame of all trace-validation specifications.                      *)
(* The recorded execution is an NDJSON file, one API call per line; a trace  *)
(* spec steps through it, and a line the specification cannot explain is     *)
(* reported as  <<"MISMATCH", line, what, ...>>.                             *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

TraceFile == IOEnv.TRACE
Events == ndJsonDeserialize(TraceFile)

MismatchReg == 42
MaxReports == 20

ASSUME TLCSet(MismatchReg, 0)

\* reports once, keeps going: later lines are still judged
Report(line, what, detail) ==
  /\ TLCSet(MismatchReg, TLCGet(MismatchReg) + 1)
  /\ IF TLCGet(MismatchReg) <= MaxReports
     THEN PrintT(<<"MISMATCH", line, what, detail>>)
     ELSE TRUE

Judge(cond, line, what, detail) == IF cond THEN TRUE ELSE Report(line, what, detail)

Has(rec, f) == f \in DOMAIN rec

TraceAccepted ==
  /\ PrintT(<<"TRACE-END", TLCGet("stats").diameter - 1, Len(Events), TLCGet(MismatchReg)>>)
  /\ TLCGet("stats").diameter - 1 = Len(Events)
  /\ TLCGet(MismatchReg) = 0
=============================================================================
