-------------------------------- MODULE Rel --------------------------------
(***************************************************************************)
(* Runs that have to be indistinguishable: one sequence of calls on one     *)
(* sequence of bytes, under circumstances that must not matter (how reads   *)
(* are fragmented, what kind of reader, which buffer is recycled, what was   *)
(* in memory before).  The runs are stepped through side by side, and the    *)
(* results of every call compared, up to the first input error, which        *)
(* leaves the reader at a place that is not specified.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, TLC, IOUtils

CONSTANT Prop

Groups == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES c, l, over
vars == <<c, l, over>>

Runs == Groups[c].runs
\* What a call returned, without what it cost.
Seen(r) == [f \in (DOMAIN r) \ {"pulled", "peak", "mem"} |-> r[f]]

IsErr(r) == r.k = "err" \/ (r.k = "samples" /\ r.end.k = "err")
Crash(r) == r.k \in {"panic", "hang", "crash"}
\* Nothing is promised about what follows.
Final(r) == IsErr(r) \/ Crash(r)

Agree(i) == \A j \in 2..Len(Runs) :
              /\ i <= Len(Runs[1]) /\ i <= Len(Runs[j])
              /\ Seen(Runs[j][i]) = Seen(Runs[1][i])

Init == c \in 1..Len(Groups) /\ l = 1 /\ over = FALSE

Step ==
  /\ ~over /\ Agree(l)
  /\ IF Final(Runs[1][l]) \/ l = Len(Runs[1])
     THEN /\ over' = TRUE /\ l' = l
          /\ PrintT("OVER " \o Groups[c].id \o " " \o ToString(l * (Len(Runs) - 1)) \o " " \o ToString(l * Len(Runs)))
     ELSE l' = l + 1 /\ UNCHANGED over
  /\ UNCHANGED c

Spec == Init /\ [][Step]_vars

Indistinguishable == ~over => Agree(l)

Differs == {j \in 2..Len(Runs) : l <= Len(Runs[j]) /\ l <= Len(Runs[1]) /\ Seen(Runs[j][l]) # Seen(Runs[1][l])}
Report == [id |-> Groups[c].id, call |-> l, expected |-> ToString(<<"runs that differ from the first", Differs>>)]
=============================================================================
