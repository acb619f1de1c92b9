------------------------------ MODULE ByteAbs ------------------------------
(***************************************************************************)
(* The byte-level reading interface as a machine of its own: the history of *)
(* ByteSource with the position made explicit.  One step is one operation   *)
(* with its outcome.  BufReader refines this.                               *)
(***************************************************************************)
EXTENDS ByteSource

CONSTANTS Bytes,    \* the source
          Ops       \* operations: <<name, n>>

VARIABLES faults,   \* its obstacles
          p,        \* bytes handed out, skipped, or lost with an error
          nf,       \* obstacles met
          last      \* outcome of the last operation

avars == <<faults, p, nf, last>>
Src == Stream(Bytes, faults)

Init == p = 0 /\ nf = 0 /\ last = [k |-> "pending"]

Do(op, n) ==
  LET k == Need(op, n)
      lim == Limit(Src, nf)
  IN /\ faults' = faults
     /\ \/ /\ p + k <= lim
           /\ p' = p + k /\ nf' = nf
           /\ last' = [k |-> "bytes", v |-> IF op = "skip" THEN <<>> ELSE SubSeq(Src.bytes, p + 1, p + k)]
        \/ /\ p = lim /\ k > 0 /\ TellsEnd(op) /\ Obstacle(Src, nf) = "eof"
           /\ p' = p /\ nf' = Fired(Src, nf)
           /\ last' = [k |-> "none"]
        \/ /\ p + k > lim
           /\ ~(p = lim /\ TellsEnd(op) /\ Obstacle(Src, nf) = "eof")
           /\ p' \in p..lim /\ nf' = Fired(Src, nf)
           /\ last' = [k |-> "err", cls |-> "io", kind |-> Obstacle(Src, nf)]

Next == \E o \in Ops : Do(o[1], o[2])
Spec == Init /\ [][Next]_avars

---------------------------------------------------------------------------
\* The set-valued history that recorded runs are judged by agrees with it: an
\* outcome of this machine is always explained, and by the position it is at.
Explains == [][\E o \in Ops : p' \in After(Src, nf, {p}, o[1], o[2], last')]_avars
\* Bytes are never handed out twice or out of order.
Forward == [][p' >= p /\ nf' >= nf]_avars
=============================================================================
