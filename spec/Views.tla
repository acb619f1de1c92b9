------------------------------- MODULE Views -------------------------------
(***************************************************************************)
(* A decoded block and the ways to look at it.  The block is a buffer of    *)
(* channels * duration samples, channel after channel; everything else is   *)
(* defined in terms of that buffer and has to be what was recorded.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, TLC, IOUtils

CONSTANT Prop

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES c, l, seen, over
vars == <<c, l, seen, over>>

Ops == Cases[c].ops
Obs == Ops[l].res

\* The views, by the buffer.
Channel(b, ch) == SubSeq(b.buf, (ch - 1) * b.bs + 1, ch * b.bs)
Pairs(b) == [i \in 1..(2 * b.bs) |-> IF i % 2 = 1 THEN b.buf[(i + 1) \div 2] ELSE b.buf[b.bs + i \div 2]]

Consistent(b) ==
  /\ b.nch \in 0..8
  /\ b.len = b.nch * b.bs
  /\ Len(b.buf) = b.len
  /\ Len(b.chans) = b.nch /\ Len(b.sam) = b.nch
  /\ \A ch \in 1..b.nch :
       /\ b.chans[ch] = Channel(b, ch)      \* slices
       /\ b.sam[ch] = Channel(b, ch)        \* single samples
  /\ IF b.nch = 2 THEN ~b.stpanic /\ b.st = Pairs(b)   \* stereo pairs, and then the end
     ELSE b.stpanic /\ b.st = <<>>
  /\ \A i \in 1..Len(b.oob) : b.oob[i] = 1   \* outside: refused

Judged == Obs.k = "block" => Consistent(Obs)

Init == c \in 1..Len(Cases) /\ l = 1 /\ seen = 0 /\ over = FALSE
Step ==
  /\ ~over /\ Judged
  /\ seen' = IF Obs.k = "block" THEN seen + 1 ELSE seen
  /\ IF l = Len(Ops) THEN
       /\ over' = TRUE /\ l' = l
       /\ PrintT("OVER " \o Cases[c].id \o " " \o ToString(seen') \o " " \o ToString(l))
     ELSE l' = l + 1 /\ UNCHANGED over
  /\ UNCHANGED c
Spec == Init /\ [][Step]_vars

Agreement == ~over => Judged
Report == [id |-> Cases[c].id, call |-> l, expected |-> "consistent views"]
=============================================================================
