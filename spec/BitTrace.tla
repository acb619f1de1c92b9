------------------------------ MODULE BitTrace ------------------------------
(***************************************************************************)
(* The bit-level reading interface: the input is one bit string, every      *)
(* byte most significant bit first; a read of n bits returns the next n,    *)
(* a unary read the number of zeros before the next one.  When the bit      *)
(* reader is dropped, the bytes touched so far are consumed, and no more.   *)
(* Validates recorded runs against this.                                    *)
(***************************************************************************)
EXTENDS Bytes, Json, TLC, IOUtils

CONSTANT Prop

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES c, l, p,   \* run, calls examined, bit position
          bad,       \* a call whose result is not what it should be
          over

vars == <<c, l, p, bad, over>>

B == Cases[c].bytes
Ops == Cases[c].ops
Total == 8 * Len(B)

BitOps == {"bit", "unary", "leq8", "gt8", "leq16", "leq32"}
\* n bits at p as two 16-bit halves.
Halves(n) == IF n <= 16 THEN <<0, Bits(B, p, n)>>
             ELSE <<Bits(B, p, n - 16), Bits(B, p + n - 16, 16)>>
EndOfInput(r) == r.k = "err" /\ r.cls = "io" /\ r.kind = "eof"

\* Outcome: [ok, p' or -1 when the input is used up]
Judged(op) ==
  LET r == op.res IN
  IF op.op \in BitOps THEN
    IF op.op = "unary" THEN
      LET z == IF p >= Total THEN -1 ELSE Unary(B, p, Len(B)) IN
      IF z = -1 THEN [ok |-> EndOfInput(r), p |-> -1]
      ELSE [ok |-> r.k = "bits" /\ r.v = <<z \div 65536, z % 65536>>, p |-> p + z + 1]
    ELSE LET n == IF op.op = "bit" THEN 1 ELSE op.n IN
      IF p + n > Total THEN [ok |-> EndOfInput(r), p |-> -1]
      ELSE [ok |-> r.k = "bits" /\ r.v = Halves(n), p |-> p + n]
  \* a byte read after the bit reader is gone
  ELSE LET i == (p + 7) \div 8 IN
       IF i = Len(B) THEN [ok |-> r.k = "none", p |-> Total]
       ELSE [ok |-> r.k = "bytes" /\ r.v = <<B[i + 1]>>, p |-> 8 * (i + 1)]

Init == /\ c \in 1..Len(Cases) /\ l = 0 /\ p = 0 /\ bad = FALSE /\ over = FALSE

Step ==
  /\ ~over /\ ~bad /\ p # -1 /\ l < Len(Ops)
  /\ \E j \in {Judged(Ops[l + 1])} : p' = j.p /\ bad' = ~j.ok
  /\ l' = l + 1 /\ UNCHANGED <<c, over>>

Over ==
  /\ ~over /\ ~bad /\ (p = -1 \/ l = Len(Ops))
  /\ over' = TRUE
  /\ PrintT("OVER " \o Cases[c].id \o " " \o ToString(l) \o " " \o ToString(l))
  /\ UNCHANGED <<c, l, p, bad>>

Spec == Init /\ [][Step \/ Over]_vars

Right == ~bad

Report == [id |-> Cases[c].id, call |-> l, expected |-> ToString(<<"bit position after", p>>)]
=============================================================================
