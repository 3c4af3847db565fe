------------------------------ MODULE TraceGate -----------------------------
(***************************************************************************)
(* Which requested poses are executed.  The state is the pose of the last  *)
(* executed step (None before the first one).  A line of the trace is a    *)
(* history of requests for one tool: each with the requested pose, the     *)
(* answer, whether anything changed, the pose stored afterwards and the    *)
(* warnings.                                                               *)
(***************************************************************************)
EXTENDS Pose, Json, IOUtils, SequencesExt

VARIABLES n, i, pose, why

Trace == ndJsonDeserialize(IOEnv.TRACE)
Line == Trace[n]
Req == Line.req[i]

\* Largest distance moved by a corner, squared, and the threshold squared, in
\* fine (1e-5 m) or coarse (1e-4 m) units.
Fine(c1, c2) == \A k \in 1..6 : VMax(VSub(c1[k], c2[k])) <= 25000
Shift2(c1, c2) ==
    IF Fine(c1, c2)
    THEN LET d(k) == Len2(VSub(c1[k], c2[k]))
         IN Max2(Max2(Max2(d(1), d(2)), Max2(d(3), d(4))), Max2(d(5), d(6)))
    ELSE MaxShift2(c1, c2)
\* f/2 minimum cells plus or minus the numerical tolerance
Thr(c1, c2, f, e) ==
    LET m == Min2(Line.cxy, Line.cz)
        v == IF Fine(c1, c2) THEN (f * m) \div 2 + e * Line.tol
             ELSE (f * m) \div 20 + e * 4
    IN v * v
\* Answers allowed: TRUE (moved enough) and/or FALSE.
Far(c1, c2, f) ==
    LET d == Shift2(c1, c2)
    IN (IF d >= Thr(c1, c2, f, -1) THEN {TRUE} ELSE {})
       \cup (IF d <= Thr(c1, c2, f, 1) THEN {FALSE} ELSE {})

Stored(R) ==         \* the stored pose is the requested one
    /\ \A k \in 1..3 : Abs(R.bp[k] - R.p[k]) <= 2
    /\ LET nn == ISqrt(Norm2(R.q) * 10000)
       IN \A k \in 1..4 : Abs(R.bo[k] * nn - R.q[k] * 1000000) <= 400 * nn

Expected(R, old) ==
    IF old = None
    THEN R.ret /\ (R.kind = "step" => Stored(R))
    ELSE LET c1 == Corners(Line.tool, old.q, old.p)
             c2 == Corners(Line.tool, R.q, R.p)
         IN /\ R.ret \in Far(c1, c2, 1)
            /\ \* exactly the moves above two cells are reported ...
               LET big == Far(c1, c2, 4)
               IN IF R.kind = "ask" \/ Line.clean THEN (R.warn > 0) \in big
                  ELSE (R.warn > 0) \/ FALSE \in big
            /\ R.kind = "ask" => R.warn <= 1
            /\ (R.kind = "ask" \/ ~R.ret) => R.same
            /\ R.kind = "step" /\ R.ret => Stored(R)
After(R, old) == IF R.kind = "step" /\ R.ret THEN [q |-> R.q, p |-> R.p] ELSE old

Init == /\ n \in 1..Len(Trace) /\ i = 1 /\ pose = None /\ why = {}
Next == /\ why = {} /\ i <= Len(Line.req)
        /\ IF Expected(Req, pose)
           THEN /\ pose' = After(Req, pose) /\ i' = i + 1 /\ why' = {}
                /\ (i = Len(Line.req)) => PrintT(<<"OK", Line.id>>)
           ELSE /\ why' = {i} /\ UNCHANGED <<i, pose>>
                /\ PrintT(<<"BAD", Line.id, i>>)
        /\ UNCHANGED n
Spec == Init /\ [][Next]_<<n, i, pose, why>>
=============================================================================
