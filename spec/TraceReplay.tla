----------------------------- MODULE TraceReplay ----------------------------
(* Recorded histories of several worlds in one process. *)
EXTENDS Replay, Json, IOUtils
VARIABLES n, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == /\ n \in 1..Len(Trace)
        /\ bad = Explained(Trace[n].worlds, Trace[n].log)
        /\ IF bad = 0 THEN PrintT(<<"OK", Trace[n].id>>)
           ELSE PrintT(<<"BAD", Trace[n].id, bad, Trace[n].log[bad].what>>)
Spec == Init /\ [][FALSE]_<<n, bad>>
=============================================================================
