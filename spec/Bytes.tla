------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Bit- and byte-level vocabulary shared by every module.                  *)
(*                                                                         *)
(* A byte sequence `b` is a TLA+ sequence of 0..255.  A *bit position* is  *)
(* a 0-based index into the big-endian bit string of `b`; byte i of the    *)
(* sequence (1-based) covers bit positions 8(i-1)..8i-1.                   *)
(*                                                                         *)
(* TLC integers are 32 bit, therefore no operator here builds a value of   *)
(* 2^31 or more: wide quantities (36-bit sample counts, 64-bit times) are  *)
(* kept as big-endian digit sequences.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384,
        32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304,
        8388608, 16777216, 33554432, 67108864, 134217728, 268435456,
        536870912, 1073741824>>

\* 2^n for 0 <= n <= 30.
Pow2(n) == P2[n + 1]

\* Number of significant bits of a byte: BitLen(0) = 0, BitLen(255) = 8.
BitLen(v) == IF v >= 128 THEN 8 ELSE IF v >= 64 THEN 7 ELSE IF v >= 32 THEN 6
             ELSE IF v >= 16 THEN 5 ELSE IF v >= 8 THEN 4 ELSE IF v >= 4 THEN 3
             ELSE IF v >= 2 THEN 2 ELSE v

\* <<1, 2, ..., n>>.
Iota(n) == [i \in 1..n |-> i]

MinOf(x, y) == IF x <= y THEN x ELSE y
MaxOf(x, y) == IF x >= y THEN x ELSE y

(***************************************************************************)
(* The unsigned value of the n bits at bit position p, 0 <= n <= 30.       *)
(***************************************************************************)
RECURSIVE BitsRec(_, _, _, _)
BitsRec(b, i, rem, acc) ==
  IF rem = 0 THEN acc
  ELSE IF rem >= 8 THEN BitsRec(b, i + 1, rem - 8, acc * 256 + b[i])
  ELSE acc * Pow2(rem) + b[i] \div Pow2(8 - rem)

Bits(b, p, n) ==
  IF n = 0 THEN 0 ELSE
  LET i == p \div 8 + 1
      avail == 8 - (p % 8)
      head == b[i] % Pow2(avail)
  IN IF n <= avail THEN head \div Pow2(avail - n)
     ELSE BitsRec(b, i + 1, n - avail, head)

\* Two's complement reading of an n-bit unsigned value, 1 <= n <= 30.
Signed(v, n) == IF v >= Pow2(n - 1) THEN v - Pow2(n - 1) - Pow2(n - 1) ELSE v

(***************************************************************************)
(* Number of zero bits from bit position p up to the next one bit, or -1   *)
(* if there is no one bit below bit position 8 * lim (lim in bytes).       *)
(***************************************************************************)
\* The first byte from index i to lim that is not zero.
FirstSet(b, i, lim) == CHOOSE j \in i..lim : b[j] # 0 /\ \A k \in i..(j - 1) : b[k] = 0

Unary(b, p, lim) ==
  LET i == p \div 8 + 1
      avail == 8 - (p % 8)
  IN IF i > lim THEN -1
     ELSE LET rest == b[i] % Pow2(avail)
          IN IF rest # 0 THEN avail - BitLen(rest)
             ELSE IF \E j \in (i + 1)..lim : b[j] # 0
                  THEN LET j == FirstSet(b, i + 1, lim) IN avail + 8 * (j - i) - BitLen(b[j])
                  ELSE -1

(***************************************************************************)
(* Natural numbers as fixed-width big-endian base-256 digit sequences.     *)
(***************************************************************************)

\* The n low-order base-256 digits of a value below 2^31.
RECURSIVE Digits(_, _)
Digits(v, n) == IF n = 0 THEN <<>> ELSE Append(Digits(v \div 256, n - 1), v % 256)

\* d * m + c modulo 256^Len(d), for a multiplier m and carry c below 2^22.
RECURSIVE DMulRec(_, _, _, _, _)
DMulRec(d, m, i, carry, acc) ==
  IF i = 0 THEN acc
  ELSE LET t == d[i] * m + carry
       IN DMulRec(d, m, i - 1, t \div 256, <<t % 256>> \o acc)
DMul(d, m, c) == DMulRec(d, m, Len(d), c, <<>>)

RECURSIVE DAddRec(_, _, _, _, _)
DAddRec(d, e, i, carry, acc) ==
  IF i = 0 THEN acc
  ELSE LET t == d[i] + e[i] + carry
       IN DAddRec(d, e, i - 1, t \div 256, <<t % 256>> \o acc)
\* Sum of two digit sequences of equal width (wrapping).
DAdd(d, e) == DAddRec(d, e, Len(d), 0, <<>>)

\* Sequence equality that tolerates the empty JSON object/array confusion.
SameSeq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : s[i] = t[i]
=============================================================================
