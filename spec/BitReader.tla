----------------------------- MODULE BitReader -----------------------------
(***************************************************************************)
(* How the bit-level interface is provided: one byte (of W bits) is kept,    *)
(* what is left of it pushed up to its most significant end, zeros below.    *)
(* Every operation is given by the arithmetic used for it, in which a byte   *)
(* wraps; wide results are built up from shifted pieces.                    *)
(*                                                                         *)
(* Refined is the interface of BitTrace: successive bits of the input, and  *)
(* no byte touched before it is needed.  W is 8 in reality; the arithmetic  *)
(* is the same for every W.                                                *)
(*                                                                         *)
(* Variant: "right", or a mistake that has to be found:                     *)
(*   "offset"     the pieces from two bytes are not fitted together right     *)
(*   "unary"      a unary code that just fits takes the next byte, too       *)
(*   "stuck"      an empty remainder is not cleared                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS W, NBytes, Variant

VARIABLES src,        \* the bytes
          ip,         \* bytes taken from the source
          data, left, \* the byte kept, and how many of its bits
          p,          \* bits handed out (by the interface's account)
          out         \* the last outcome: the operation, its result, what it should be

vars == <<src, ip, data, left, p, out>>

RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)
Min(a, b) == IF a < b THEN a ELSE b
Shl(x, n) == (x * P2(n)) % P2(W)           \* within a byte
Shr(x, n) == x \div P2(n)
Hi(x, n) == x - (x % P2(W - n))              \* the n most significant bits, in place
RECURSIVE LeadingZeros(_, _)
LeadingZeros(x, n) == IF n = 0 \/ x >= P2(n - 1) THEN 0 ELSE 1 + LeadingZeros(x, n - 1)

Init == /\ src \in [1..NBytes -> 0..(P2(W) - 1)]
        /\ ip = 0 /\ data = 0 /\ left = 0 /\ p = 0
        /\ out = [op |-> "", r |-> 0, is |-> 0]

\* What should be read: the bits of the source as one string.
Bit(i) == (src[i \div W + 1] \div P2(W - 1 - (i % W))) % 2      \* 0-based
RECURSIVE Value(_, _)
Value(i, n) == IF n = 0 THEN 0 ELSE 2 * Value(i, n - 1) + Bit(i + n - 1)
RECURSIVE Zeros(_)
Zeros(i) == IF i >= W * NBytes THEN -1 ELSE IF Bit(i) = 1 THEN 0
            ELSE LET z == Zeros(i + 1) IN IF z = -1 THEN -1 ELSE z + 1

\* The state after an operation [st, d, l, ip, r]; st = FALSE at the end of the input.
Fail(k) == [st |-> FALSE, d |-> 0, l |-> 0, ip |-> k, r |-> 0]

ReadBit ==
  IF left = 0 THEN
    IF ip = NBytes THEN Fail(ip)
    ELSE LET b == src[ip + 1] IN [st |-> TRUE, d |-> Shl(b, 1), l |-> W - 1, ip |-> ip + 1, r |-> b \div P2(W - 1)]
  ELSE [st |-> TRUE, d |-> Shl(data, 1), l |-> left - 1, ip |-> ip, r |-> data \div P2(W - 1)]

RECURSIVE MoreZeros(_, _)
MoreZeros(n, k) ==
  IF k = NBytes THEN Fail(k)
  ELSE LET b == src[k + 1]
           z == LeadingZeros(b, W)
       IN IF z = W THEN MoreZeros(n + z, k + 1)
          ELSE [st |-> TRUE, d |-> Shl(b, z + 1), l |-> W - (z + 1), ip |-> k + 1, r |-> n + z]
ReadUnary ==
  LET n == LeadingZeros(data, W) IN
  IF n < left /\ (Variant = "unary" => n + 1 < left)
  THEN [st |-> TRUE, d |-> Shl(data, n + 1), l |-> left - (n + 1), ip |-> ip, r |-> n]
  ELSE MoreZeros(left, ip)

\* At most a byte, from a given state.
Few(s, bits) ==
  IF ~s.st THEN s
  ELSE IF s.l < bits THEN
    IF s.ip = NBytes THEN Fail(s.ip)
    ELSE LET b == src[s.ip + 1]
             want == bits - s.l
             lsb == Shr(Hi(b, want), IF Variant = "offset" THEN want ELSE s.l)
             msb == s.d
         IN [st |-> TRUE, d |-> Shl(b, want), l |-> W - want, ip |-> s.ip + 1,
             r |-> Shr(msb + lsb, W - bits)]
  ELSE [st |-> TRUE, d |-> Shl(s.d, bits), l |-> s.l - bits, ip |-> s.ip,
        r |-> Shr(Hi(s.d, bits), W - bits)]
Here == [st |-> TRUE, d |-> data, l |-> left, ip |-> ip, r |-> 0]

\* More than a byte, at most two: pieces of up to three bytes.
Mid(bits) ==
  LET msb == (data * P2(bits - W)) - ((data * P2(bits - W)) % P2(bits - left))
      want == bits - left
  IN IF ip = NBytes THEN Fail(ip)
     ELSE LET b == src[ip + 1]
              lsb == IF want >= W THEN b * P2(want - W) ELSE Shr(b, W - want)
          IN IF want <= W
             THEN [st |-> TRUE, l |-> W - want, ip |-> ip + 1, r |-> msb + lsb,
                   d |-> IF Variant = "stuck" /\ want = W THEN b ELSE Shl(b, want)]
             ELSE IF ip + 1 = NBytes THEN Fail(ip + 1)
             ELSE LET c == src[ip + 2] IN
                  [st |-> TRUE, l |-> 2 * W - want, ip |-> ip + 2, r |-> msb + lsb + Shr(c, 2 * W - want),
                   d |-> IF Variant = "stuck" /\ want = 2 * W THEN c ELSE Shl(c, want - W)]

\* Up to two and up to four bytes, put together from smaller reads.
Two(s, bits) ==
  IF bits <= W THEN Few(s, bits)
  ELSE LET a == Few(s, W)
           b == Few(a, bits - W)
       IN [b EXCEPT !.r = a.r * P2(bits - W) + b.r]
Four(bits) ==
  IF bits <= 2 * W THEN Two(Here, bits)
  ELSE LET a == Two(Here, 2 * W)
           b == Two(a, bits - 2 * W)
       IN [b EXCEPT !.r = a.r * P2(bits - 2 * W) + b.r]

\* One operation: its state and result, and what it should have been.
Do(name, x, n, should) ==
  /\ ip' = x.ip /\ data' = x.d /\ left' = x.l
  /\ p' = IF x.st THEN p + n ELSE -1
  /\ out' = [op |-> name, r |-> IF x.st THEN x.r ELSE -1, is |-> should]
  /\ src' = src

Total == W * NBytes
Fixed(name, x, n) == Do(name, x, n, IF p + n > Total THEN -1 ELSE Value(p, n))

Next ==
  /\ p # -1
  /\ \/ Fixed("bit", ReadBit, 1)
     \/ LET z == Zeros(p) IN Do("unary", ReadUnary, z + 1, z)
     \/ \E n \in 0..W : Fixed("few", Few(Here, n), n)
     \/ \E n \in (W + 1)..(2 * W) : Fixed("mid", Mid(n), n)
     \/ \E n \in 0..(2 * W) : Fixed("two", Two(Here, n), n)
     \/ \E n \in 0..(4 * W) : Fixed("four", Four(n), n)

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Right == [][out'.r = out'.is]_vars
\* Not a byte more than needed.
Frugal == p # -1 => ip = (p + W - 1) \div W
\* The invariant of the representation.
Padded == p # -1 => left < W /\ left = W * ip - p /\ (data % P2(W - left)) = 0
\* (Outcomes are judged as they happen and need not be told apart.)
View == <<src, ip, data, left, p>>
=============================================================================
