------------------------------- MODULE Trace --------------------------------
(* Validation of recorded traces by subset construction.  Each trace starts  *)
(* one behaviour; its state holds the set of states the specification allows *)
(* after the events so far.  If an event leaves none, the trace is rejected. *)
EXTENDS Bindings, Json, IOUtils

In == JsonDeserialize(IOEnv.TRACE_FILE)
TraceImages == In.images
TraceFiles == In.files
Traces == In.traces
Configs == In.configs

VARIABLES ti, i, S
vars == <<ti, i, S>>

Init == ti \in 1 .. Len(Traces) /\ i = 1 /\ S = {Init0}

Next ==
  /\ i <= Len(Traces[ti].ev)
  /\ S # {}
  /\ LET e == Traces[ti].ev[i]
         S2 == UNION {BindStep(Configs[Traces[ti].c], s, e) : s \in S}
     IN /\ S' = S2
        /\ S2 = {} => PrintT(<<"REJECT", Traces[ti].id, i>>)
  /\ i' = i + 1
  /\ UNCHANGED ti

Spec == Init /\ [][Next]_vars
=============================================================================
