------------------------------ MODULE TraceData -----------------------------
(***************************************************************************)
(* Recorded states of the implementation (JSON) as specification values.   *)
(* A recorded state is sparse: terrain as a background value `bg` and the  *)
(* columns that differ from it, walls and slabs as [x, y, slot, lo, hi],   *)
(* parcels as [x, y, slot, h, xb, yb, zb].                                 *)
(***************************************************************************)
EXTENDS SoilCore, Json, SequencesExt, IOUtils

TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)

GroundOf(X, Y, j) ==
    FoldLeft(LAMBDA f, e : [f EXCEPT ![<<e[1], e[2]>>] = e[3]],
             TLCEval([c \in Grid(X, Y) |-> j.bg]), j.t)
SlotsOf(X, Y, list) ==
    FoldLeft(LAMBDA f, e : [f EXCEPT ![<<e[1], e[2]>>][e[3]] = <<e[4], e[5]>>],
             TLCEval([c \in Grid(X, Y) |-> <<None, None>>]), list)
WallsOf(X, Y, j) == SlotsOf(X, Y, j.w)
SlabsOf(X, Y, j) == SlotsOf(X, Y, j.s)
ParcelsOf(j) ==
    FoldLeft(LAMBDA b, e : AddB(b, <<e[1], e[2], e[3], e[4]>>), EmptyB, j.r)
\* Parcels with their body-frame anchor.
FullParcelsOf(j) == FoldLeft(LAMBDA b, e : AddB(b, e), EmptyB, j.r)

\* Total soil of a recorded state.
MassOf(X, Y, j) ==
    X * Y * j.bg + FoldLeft(LAMBDA a, e : a + e[3] - j.bg, 0, j.t)
    + FoldLeft(LAMBDA a, e : a + e[5] - e[4], 0, j.s)
WithinBag(a, b) == \A e \in DOMAIN a : e \in DOMAIN b /\ a[e] <= b[e]
=============================================================================
