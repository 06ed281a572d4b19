------------------------------ MODULE TraceLib ------------------------------
(* Shared by every module that validates recorded executions.  A trace file  *)
(* holds one JSON object per line (a case).  Verdicts are total: every case  *)
(* gets a printed set of the names of the clauses it violates.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

BAD == -2000000007          \* what a driver writes for a value it cannot encode

Clause(holds, name) == IF holds THEN {} ELSE {name}
Range(s) == {s[i] : i \in DOMAIN s}
Verdict(i, bad) == PrintT(<<"VERDICT", i, bad>>)
=============================================================================
