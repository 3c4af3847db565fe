-------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* The results folder: a set of file names, and what an output request     *)
(* adds to it.  A request writes the ground and the carried soil under the *)
(* first number neither a ground nor a carried-soil file has, and the      *)
(* outline of the tool under the first free number of its own series.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Pad(k) == LET s == ToString(k)
          IN IF k < 10 THEN "0000" \o s ELSE IF k < 100 THEN "000" \o s
             ELSE IF k < 1000 THEN "00" \o s ELSE IF k < 10000 THEN "0" \o s
             ELSE s
Name(series, k) == series \o "_" \o Pad(k) \o ".csv"
\* The smallest number for which no name of these series is taken.
Taken(names, S, k) == \E series \in S : Name(series, k) \in names
FirstFree(names, S) ==
    CHOOSE k \in 0..Cardinality(names) :
        ~Taken(names, S, k) /\ \A i \in 0..(k - 1) : Taken(names, S, i)
Free(names, series) == FirstFree(names, {series})
ToolSeries(blade) == IF blade THEN "blade" ELSE "bucket"
\* Ground and carried soil share the first number neither of them has.
Shared(names) == FirstFree(names, {"terrain", "body_soil"})
\* The files one request writes.
Ground(names) == Name("terrain", Shared(names))
Carried(names) == Name("body_soil", Shared(names))
Outline(names, blade) == Name(ToolSeries(blade), Free(names, ToolSeries(blade)))
Written(names, blade) == {Ground(names), Carried(names), Outline(names, blade)}
=============================================================================
