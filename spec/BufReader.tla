----------------------------- MODULE BufReader -----------------------------
(***************************************************************************)
(* How the byte-level interface is provided: a buffer of Cap bytes, of which *)
(* those from pos up to valid have not been handed out.  The source decides *)
(* how many bytes each refill gets.  One step is one refill or one transfer  *)
(* out of the buffer.                                                       *)
(*                                                                         *)
(* Refines ByteAbs for every way of splitting the input into reads: that is *)
(* why Flac.tla can do without buffers, and what C04 and C06 rest on.       *)
(*                                                                         *)
(* Variant is "right", or a mistake the refinement has to be lost by:       *)
(*   "stale"     the window is reopened before the refill is known to have   *)
(*               succeeded, so that after an error old bytes are read again  *)
(*   "overrun"   the refill does not reset pos                              *)
(*   "short"     a transfer takes a partial refill for the end of the input  *)
(***************************************************************************)
EXTENDS ByteSource, TLC

CONSTANTS N, Cap, MaxFaults, OpNames, Amounts, Variant

Bytes == [i \in 1..N |-> i]
Kinds == {"eof", "timedout"}
Obstacles == [at : 0..N, kind : Kinds]
FaultLists == {f \in UNION {[1..k -> Obstacles] : k \in 0..MaxFaults} :
                \A i \in 1..(Len(f) - 1) : f[i].at <= f[i + 1].at}

VARIABLES faults,           \* obstacles of the source, chosen in the beginning
          spos, snf,        \* what the source has given, obstacles that took effect
          buf, pos, valid,  \* the reader
          call,             \* the operation in progress
          p0, nf0,          \* where it began
          last

vars == <<faults, spos, snf, buf, pos, valid, call, p0, nf0, last>>

Src == Stream(Bytes, faults)
NoCall == [op |-> "", need |-> 0, got |-> <<>>]
Idle == call.op = ""
AllOps == {<<o, 0>> : o \in OpNames} \cup {<<o, n>> : o \in {"into", "skip"}, n \in Amounts}

Init == /\ faults \in FaultLists
        /\ spos = 0 /\ snf = 0 /\ buf = [i \in 1..Cap |-> 0] /\ pos = 0 /\ valid = 0
        /\ call = NoCall /\ p0 = 0 /\ nf0 = 0 /\ last = [k |-> "pending"]

At == spos - (valid - pos)     \* where its user believes the reader to be

Start == /\ Idle
         /\ \E o \in AllOps : call' = [op |-> o[1], need |-> Need(o[1], o[2]), got |-> <<>>]
         /\ p0' = At /\ nf0' = snf
         /\ UNCHANGED <<faults, spos, snf, buf, pos, valid, last>>

Return(r) == call' = NoCall /\ last' = r
Bulk == call.op \in {"into", "skip"}

Done == /\ ~Idle /\ call.need = 0
        /\ Return([k |-> "bytes", v |-> IF call.op = "skip" THEN <<>> ELSE call.got])
        /\ UNCHANGED <<faults, spos, snf, buf, pos, valid, p0, nf0>>

\* Out of the buffer: byte by byte, or all that is wanted and there.
Transfer ==
  /\ ~Idle /\ call.need > 0 /\ pos < valid
  /\ LET k == IF Bulk THEN (IF call.need < valid - pos THEN call.need ELSE valid - pos) ELSE 1 IN
       /\ call' = [call EXCEPT !.need = @ - k, !.got = @ \o SubSeq(buf, pos + 1, pos + k)]
       /\ pos' = pos + k
  /\ UNCHANGED <<faults, spos, snf, buf, valid, p0, nf0, last>>

\* The source delivers k bytes.
Refill ==
  /\ ~Idle /\ call.need > 0 /\ pos = valid
  /\ \E k \in 1..Cap :
       /\ spos + k <= Limit(Src, snf)
       /\ buf' = [i \in 1..Cap |-> IF i <= k THEN Bytes[spos + i] ELSE buf[i]]
       /\ spos' = spos + k /\ valid' = k
       /\ pos' = IF Variant = "overrun" /\ pos < k THEN pos ELSE 0
       /\ IF Variant = "short" /\ Bulk /\ k < call.need /\ k < Cap
          THEN Return([k |-> "err", cls |-> "io", kind |-> "eof"])
          ELSE call' = call /\ last' = last
  /\ UNCHANGED <<faults, snf, p0, nf0>>

\* The source delivers nothing: an error, or the end of the input (for now).
Refused ==
  /\ ~Idle /\ call.need > 0 /\ pos = valid /\ spos = Limit(Src, snf)
  /\ snf' = Fired(Src, snf)
  /\ LET x == Obstacle(Src, snf) IN
       /\ valid' = IF x = "eof" THEN 0 ELSE valid
       /\ pos' = IF x = "eof" \/ Variant = "stale" THEN 0 ELSE pos
       /\ IF x = "eof" /\ TellsEnd(call.op) /\ call.got = <<>>
          THEN Return([k |-> "none"])
          ELSE Return([k |-> "err", cls |-> "io", kind |-> x])
  /\ UNCHANGED <<faults, spos, buf, p0, nf0>>

Work == Done \/ Transfer \/ Refill \/ Refused
Next == Start \/ Work
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)

---------------------------------------------------------------------------
Abs == INSTANCE ByteAbs WITH Ops <- AllOps, p <- IF Idle THEN At ELSE p0, nf <- IF Idle THEN snf ELSE nf0
Refines == Abs!Spec
Explains == Abs!Explains
Forward == Abs!Forward
\* The window stays within the buffer and within what was read.
Window == 0 <= pos /\ pos <= valid /\ valid <= Cap /\ spos <= N
\* Every operation comes to an end.
Returns == []<>Idle
=============================================================================
