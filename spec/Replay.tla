------------------------------- MODULE Replay -------------------------------
(***************************************************************************)
(* Worlds as functions of their histories.                                 *)
(*                                                                         *)
(* An event is <<w, key, h, cfg>>: a call on world w (key identifies the   *)
(* call with its arguments and its seed; 0 is a call that must not have    *)
(* any effect: a check, an output request, a repeated request of the       *)
(* current pose), after which world v has the fingerprint h[v] and its     *)
(* constant objects (grid, parameters, geometry of the tool) cfg[v].       *)
(*                                                                         *)
(* hist[w]  the effective calls made on w so far                           *)
(* memo     the fingerprints observed after a history                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Start(n) == [hist |-> [w \in 1..n |-> <<>>], last |-> [w \in 1..n |-> <<>>],
             cfg |-> [w \in 1..n |-> <<>>], memo |-> <<>>, ok |-> TRUE, at |-> 0]
After(S, e) ==
    LET n == Len(e.h)
        hist == IF e.key = 0 THEN S.hist
                ELSE [S.hist EXCEPT ![e.w] = Append(@, e.key)]
        k == hist[e.w]
        known == k \in DOMAIN S.memo
        ok == \* only the world of an effective call may change
              /\ \A v \in 1..n : (v # e.w \/ e.key = 0) =>
                     (S.last[v] = <<>> \/ S.last[v] = e.h[v])
              \* equal histories, equal worlds
              /\ known => S.memo[k] = e.h[e.w]
              /\ \A v \in 1..n : S.cfg[v] = <<>> \/ S.cfg[v] = e.cfg[v]
    IN TLCEval([hist |-> hist, last |-> e.h, cfg |-> e.cfg,
                memo |-> IF known THEN S.memo ELSE (k :> e.h[e.w]) @@ S.memo,
                ok |-> S.ok /\ ok,
                at |-> IF S.ok /\ ~ok THEN S.at + 1 ELSE IF S.ok THEN S.at + 1 ELSE S.at])
\* 0 if the log is explained, else the number of the first event that is not.
Explained(n, log) == LET S == FoldLeft(After, Start(n), log)
                     IN IF S.ok THEN 0 ELSE S.at
=============================================================================
