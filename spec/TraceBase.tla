----------------------------- MODULE TraceBase -----------------------------
(* What every trace specification shares.  The trace file (environment variable TRACE) holds one scenario    *)
(* per line: recorded operations of the real code with their arguments and results.  A trace specification   *)
(* starts in any scenario and consumes its events one by one through the actions of the component's          *)
(* specification.  Where a recorded result is not what the specification prescribes, a line is printed that  *)
(* names the property, and checking goes on from the recorded result.                                        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Has(r, f) == f \in DOMAIN r

(* Property, scenario, event number, what was compared. *)
Report(prop, id, i, what) == PrintT("@@MISMATCH " \o ToJson([prop |-> prop, id |-> id, i |-> i, what |-> what]))
Expect(prop, id, i, what, ok) == IF ok THEN TRUE ELSE Report(prop, id, i, what)
(* For explaining a mismatch. *)
ExpectIs(prop, id, i, what, got, want) ==
  IF got = want THEN TRUE
  ELSE PrintT("@@MISMATCH " \o ToJson([prop |-> prop, id |-> id, i |-> i, what |-> what, recorded |-> ToString(got), specified |-> ToString(want)]))
=============================================================================
