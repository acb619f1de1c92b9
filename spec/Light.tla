------------------------------- MODULE Light -------------------------------
(***************************************************************************)
(* Validates recorded runs against the protocol, on sources whose bytes are *)
(* not looked at.  Cheap, hence for great numbers of runs and for sources    *)
(* far larger than could be modelled.                                       *)
(***************************************************************************)
EXTENDS Protocol, Json, TLC, IOUtils

CONSTANT Prop

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES c, l, over
lvars == <<pvars, c, l, over>>

Ops == Cases[c].ops
Arg(o) == IF o.op = "open" THEN (IF o.only THEN 1 ELSE 0) ELSE IF "n" \in DOMAIN o THEN o.n ELSE 0

Init == /\ c \in 1..Len(Cases)
        /\ hold = (IF Cases[c].kind \in {"flac", "file"} THEN "none" ELSE "bytes")
        /\ run = "" /\ fused = FALSE /\ used = 0 /\ l = 1 /\ over = FALSE

Allowed(o) == Outcome(o.op, Arg(o), o.res)
Step == /\ ~over /\ l <= Len(Ops)
        /\ PCall(Ops[l].op, Arg(Ops[l]), Ops[l].res)
        /\ l' = l + 1 /\ UNCHANGED <<c, over>>
Done == /\ ~over /\ l > Len(Ops)
        /\ over' = TRUE
        /\ PrintT("OVER " \o Cases[c].id \o " " \o ToString(Len(Ops)) \o " " \o ToString(Len(Ops)))
        /\ UNCHANGED <<pvars, c, l>>
Spec == Init /\ [][Step \/ Done]_lvars

\* Every call has an outcome it can have ...
Behaves == l <= Len(Ops) => Allowed(Ops[l])
\* ... and makes progress: no more is delivered than the source can hold.
Progress == used <= Cases[c].len
\* The recorder makes legal calls only.
LegalCalls == l <= Len(Ops) => Legal(Ops[l].op)

Report == [id |-> Cases[c].id, call |-> l, expected |-> ToString(<<hold, run, fused, used>>)]
=============================================================================
