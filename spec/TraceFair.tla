------------------------------ MODULE TraceFair -----------------------------
(***************************************************************************)
(* Executions of one situation with many states of the random generator.   *)
(* TLC explores every behaviour of the specification; each of its outcomes *)
(* must have been observed and every observed outcome must be one of its.  *)
(* Where the outcomes are equally likely by symmetry (`sym` of them), each *)
(* has been observed its share of times.                                   *)
(***************************************************************************)
EXTENDS TracePhase

Seen == TLCEval([i \in 1..Len(Trace) |->
            LET L == Trace[i]
            IN [k \in 1..Len(L.seen) |->
                  [t |-> GroundOf(L.X, L.Y, L.seen[k]),
                   w |-> WallsOf(L.X, L.Y, L.seen[k]),
                   s |-> SlabsOf(L.X, L.Y, L.seen[k]),
                   r |-> ParcelsOf(L.seen[k])]]])
\* Six standard deviations around total / sym.
Share(L) ==
    L.sym > 0 =>
        /\ Len(L.seen) = L.sym
        /\ \A k \in 1..L.sym :
              LET x == L.seen[k].count * L.sym - L.total
              IN x * x <= 36 * L.sym * L.total

Outcome ==
    /\ ph = "idle" /\ Stage = "end"
    /\ LET K == {k \in 1..Len(Seen[n]) : Seen[n][k] = [t |-> t, w |-> w, s |-> s, r |-> r]}
       IN IF K = {} THEN PrintT(<<"MISS", Line.id>>)
          ELSE \A k \in K : PrintT(<<"HIT", Line.id * 1000 + k>>)
    /\ ph' = "accepted"
    /\ UNCHANGED <<cfg, t, w, s, r, eq, areas, todo, cur, it, lost, n, at>>
FairNext == \/ Begin \/ Finish \/ Widen \/ Outcome
            \/ Go(SlideNext) \/ Go(PushNext) \/ Go(GroundNext) \/ Go(SlabNext)
FairInit == /\ TraceInit
            /\ IF Share(Line) THEN TRUE ELSE PrintT(<<"UNFAIR", Line.id>>)
FairSpec == FairInit /\ [][FairNext]_tvars
=============================================================================
