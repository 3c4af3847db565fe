---------------------------- MODULE TraceMonitor ----------------------------
(* Verdicts of the built-in checkers on recorded states.                   *)
EXTENDS Monitor, Json, IOUtils
VARIABLES n, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
Num(b) == IF b THEN 1 ELSE 0
Wrong(L) ==
    LET t == TLCEval(GroundMap(L.X, L.Y, L))
        w == TLCEval(Layers(L.X, L.Y, L.w))
        s == TLCEval(Layers(L.X, L.Y, L.s))
        vol(m) == VolumeGood(t, w, s, L.r, m)
        soil == SoilGood(t, w, s, L.ba)
    IN {k \in 1..Len(L.ask) :
          LET A == L.ask[k]
          IN \/ ~A.same
             \/ A.kind = "volume" /\ (A.ret # vol(A.n) \/ A.warn # Num(~vol(A.n)))
             \/ A.kind = "soil" /\ (A.ret # soil \/ A.warn # Num(~soil))
             \/ A.kind = "both" /\ A.warn # Num(~vol(A.n)) + Num(~soil)}
Init == /\ n \in 1..Len(Trace)
        /\ bad = Wrong(Trace[n])
        /\ IF bad = {} THEN PrintT(<<"OK", Trace[n].id>>)
           ELSE PrintT(<<"BAD", Trace[n].id, bad>>)
Spec == Init /\ [][FALSE]_<<n, bad>>
=============================================================================
