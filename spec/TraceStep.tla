------------------------------ MODULE TraceStep -----------------------------
(***************************************************************************)
(* Executed steps against the control of Step.  A line holds what each     *)
(* phase leaves when the phases are executed one by one (`after`: phase,   *)
(* fingerprint of the world, equilibrium flag; more passes than needed)    *)
(* and the fingerprints left by the whole step for several limits on the   *)
(* number of passes (`step`), all from the same state of the world, of the *)
(* tool and of the random generator.                                       *)
(***************************************************************************)
EXTENDS Step, Json, IOUtils
VARIABLE n
Trace == ndJsonDeserialize(IOEnv.TRACE)

TInit == \E i \in 1..Len(Trace) : \E k \in 1..Len(Trace[i].step) :
            n = <<i, k>> /\ eq = Trace[i].eq /\ StartStep(Trace[i].step[k].max)
L == Trace[n[1]]
Rec == L.after[Len(past) + 1]
Follow(A(_)) == Rec.op = pc /\ A(Rec.eq)
TNext ==
    /\ pc # "end"
    /\ UNCHANGED n
    /\ \/ Follow(Place) \/ Follow(Carry) \/ (Rec.op = pc /\ Displace)
       \/ Follow(Area) \/ Follow(Ground) \/ Follow(Slab)
TSpec == TInit /\ [][TNext]_<<cvars, n>>
Verdict ==
    pc = "end" =>
        IF L.after[Len(past)].h = L.step[n[2]].h /\ eq = L.step[n[2]].eq
        THEN PrintT(<<"SAME", L.id * 10 + n[2]>>)
        ELSE PrintT(<<"DIFF", L.id * 10 + n[2]>>)
=============================================================================
