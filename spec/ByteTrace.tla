----------------------------- MODULE ByteTrace -----------------------------
(***************************************************************************)
(* Validates recorded runs of the byte-level interface against ByteSource. *)
(***************************************************************************)
EXTENDS ByteSource, Json, TLC, IOUtils

CONSTANT Prop

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES c,     \* which run
          l,     \* calls examined
          at,    \* where the reader may be
          nf,    \* obstacles met
          over

vars == <<c, l, at, nf, over>>

Src == Stream(Cases[c].bytes, Cases[c].faults)
Ops == Cases[c].ops
N(op) == IF "n" \in DOMAIN op THEN op.n ELSE 0

\* Long stretches that are skipped over are left out of the bytes and out of the
\* amount: `holes` are the places, `over` how many of them the operation spans.
Holes == IF "holes" \in DOMAIN Cases[c] THEN Cases[c].holes ELSE <<>>
Over1(op) == IF "over" \in DOMAIN op THEN op.over ELSE 0
Fair(op) == \A p \in at : Cardinality({i \in 1..Len(Holes) : p < Holes[i].at /\ Holes[i].at - p < Need(op.op, N(op))}) = Over1(op)

\* A cursor may begin anywhere, also past the end (how far makes no difference).
Start(x) == IF "start" \in DOMAIN x THEN x.start ELSE 0

Init == /\ c \in 1..Len(Cases)
        /\ l = 0 /\ at = {Start(Cases[c])} /\ nf = 0 /\ over = FALSE

Step ==
  /\ ~over /\ l < Len(Ops) /\ at # {}
  /\ LET op == Ops[l + 1] IN
       /\ Assert(Fair(op), "a hole is not skipped over")
       /\ at' = After(Src, nf, at, op.op, N(op), op.res)
       /\ nf' = IF Blocked(op.res) THEN Fired(Src, nf) ELSE nf
  /\ l' = l + 1
  /\ UNCHANGED <<c, over>>

Over ==
  /\ ~over /\ l = Len(Ops) /\ at # {}
  /\ over' = TRUE
  /\ PrintT("OVER " \o Cases[c].id \o " " \o ToString(l) \o " " \o ToString(l))
  /\ UNCHANGED <<c, l, at, nf>>

Spec == Init /\ [][Step \/ Over]_vars

\* Some position explains everything that was read.
Explained == at # {}

Report == [id |-> Cases[c].id, call |-> l, expected |-> ToString(<<"limit", Limit(Src, nf), "obstacles", nf>>)]
=============================================================================
