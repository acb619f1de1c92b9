------------------------------ MODULE Encoder ------------------------------
(***************************************************************************)
(* The other direction: how abstract frames, metadata blocks and streams    *)
(* are laid out in bytes.  Used to generate stimuli and, in the exhaustive  *)
(* models, to state that decoding inverts encoding.                         *)
(*                                                                          *)
(* A frame description is                                                   *)
(*   [variable, num, numlen, bsc, bs, src, srx, cha, bpc, bps, subs]        *)
(* with one entry of subs per channel as it is coded (after stereo          *)
(* decorrelation):                                                          *)
(*   [ty, order, wasted, sam, coefs, prec, shift, method, porder, ks]       *)
(***************************************************************************)
EXTENDS Bytes, Crc, TLC

---------------------------------------------------------------------------
(* Bit writer: complete bytes, pending bits and how many of them *)

W0 == [b |-> <<>>, a |-> 0, n |-> 0]

RECURSIVE PutU(_, _, _)
\* Appends the n low-order bits of v >= 0.
PutU(w, v, n) ==
  IF n > 8 THEN PutU(PutU(w, v \div 256, n - 8), v % 256, 8)
  ELSE LET t == w.a * Pow2(n) + (v % Pow2(n))
           m == w.n + n
       IN IF m < 8 THEN [w EXCEPT !.a = t, !.n = m]
          ELSE [b |-> Append(w.b, t \div Pow2(m - 8)), a |-> t % Pow2(m - 8), n |-> m - 8]

\* Two's complement in n bits.
PutS(w, v, n) == PutU(w, v % Pow2(n), n)

RECURSIVE PutZeros(_, _)
PutZeros(w, q) ==
  IF q >= 32 THEN LET left == q - (8 - w.n)       \* whole bytes at once
                      w1 == PutU(w, 0, 8 - w.n)
                  IN PutZeros([w1 EXCEPT !.b = @ \o [i \in 1..(left \div 8) |-> 0]], left % 8)
  ELSE IF q >= 8 THEN PutZeros(PutU(w, 0, 8), q - 8) ELSE PutU(w, 0, q)
PutUnary(w, q) == PutU(PutZeros(w, q), 1, 1)

\* Pads with zero bits to a byte boundary.
Aligned(w) == IF w.n = 0 THEN w.b ELSE Append(w.b, w.a * Pow2(8 - w.n))

---------------------------------------------------------------------------
(* Residuals *)

Fold(v) == IF v >= 0 THEN 2 * v ELSE -2 * v - 1

\* floor(inner product / 2^shift), on two limbs as in the decoder.
Limbs(coefs, s, i) ==        \* predicts s[i] from s[i-1], s[i-2], ...
  FoldLeft(LAMBDA acc, j : LET x == s[i - j]
                               lo == acc[2] + coefs[j] * (x % 16384)
                           IN <<acc[1] + coefs[j] * (x \div 16384) + lo \div 16384, lo % 16384>>,
           <<0, 0>>, Iota(Len(coefs)))
Predicted(coefs, shift, s, i) ==
  LET d == Limbs(coefs, s, i) IN
  IF shift >= 14 THEN d[1] \div Pow2(shift - 14)
  ELSE d[1] * Pow2(14 - shift) + d[2] \div Pow2(shift)
\* The prediction fits comfortably in an integer.
Predictable(coefs, shift, s, i) ==
  LET d == Limbs(coefs, s, i)
      room == IF shift >= 14 THEN Pow2(28) ELSE Pow2(14 + shift)
  IN d[1] < room /\ d[1] > -room

FixedWeights(o) == CASE o = 0 -> <<>> [] o = 1 -> <<1>> [] o = 2 -> <<2, -1>>
                     [] o = 3 -> <<3, -3, 1>> [] o = 4 -> <<4, -6, 4, -1>>

Weights(sub) == IF sub.ty = "fixed" THEN FixedWeights(sub.order) ELSE sub.coefs
Residuals(sub) ==
  TLCEval([i \in 1..(Len(sub.sam) - sub.order) |->
     sub.sam[i + sub.order] - Predicted(Weights(sub), sub.shift, sub.sam, i + sub.order)])

\* One partition: its parameter and its values r[from..to].
PutPartition(w, sub, r, k, from, to) ==
  FoldLeft(LAMBDA acc, i : LET u == Fold(r[i]) IN PutU(PutUnary(acc, u \div Pow2(k)), u, k),
           PutU(w, k, sub.method + 4),
           [j \in 1..(to - from + 1) |-> from + j - 1])

PutResidual(w, sub) ==
  LET r == Residuals(sub)
      bs == Len(sub.sam)
      plen == bs \div Pow2(sub.porder)
      w1 == PutU(PutU(w, sub.method, 2), sub.porder, 4)
  IN FoldLeft(LAMBDA acc, p : PutPartition(acc, sub, r, sub.ks[p],
                                           MaxOf(1, (p - 1) * plen - sub.order + 1),
                                           p * plen - sub.order),
              w1, Iota(Pow2(sub.porder)))

---------------------------------------------------------------------------
(* Subframes and frames *)

TypeCode(sub) == CASE sub.ty = "const" -> 0 [] sub.ty = "verb" -> 1
                   [] sub.ty = "fixed" -> 8 + sub.order [] sub.ty = "lpc" -> 31 + sub.order

PutPlain(w, s, n, bits) ==
  FoldLeft(LAMBDA acc, i : PutS(acc, s[i], bits), w, Iota(n))

PutSub(w, sub, bps) ==
  LET w1 == PutU(PutU(w, 0, 1), TypeCode(sub), 6)
      w2 == IF sub.wasted = 0 THEN PutU(w1, 0, 1)
            ELSE PutUnary(PutU(w1, 1, 1), sub.wasted - 1)
      b == bps - sub.wasted
  IN CASE sub.ty = "const" -> PutS(w2, sub.sam[1], b)
       [] sub.ty = "verb" -> PutPlain(w2, sub.sam, Len(sub.sam), b)
       [] sub.ty = "fixed" -> PutResidual(PutPlain(w2, sub.sam, sub.order, b), sub)
       [] sub.ty = "lpc" ->
            LET w3 == PutPlain(w2, sub.sam, sub.order, b)
                w4 == PutS(PutU(w3, sub.prec - 1, 4), sub.shift, 5)
            IN PutResidual(PutPlain(w4, sub.coefs, sub.order, sub.prec), sub)

RECURSIVE Low6(_, _)
\* The n low-order groups of six bits of a digit sequence, as continuation bytes.
Low6(d, n) ==
  IF n = 0 THEN <<>>
  ELSE LET RECURSIVE Shr6(_, _, _, _)
           Shr6(e, i, carry, acc) == IF i > Len(e) THEN acc
             ELSE LET t == carry * 256 + e[i] IN Shr6(e, i + 1, t % 64, Append(acc, t \div 64))
       IN Append(Low6(Shr6(d, 1, 0, <<>>), n - 1), 128 + (d[Len(d)] % 64))

\* A number coded in n = 1..7 bytes; d are its eight base-256 digits.
CodedNumber(d, n) ==
  IF n = 1 THEN <<d[8]>>
  ELSE LET lead == 256 - Pow2(8 - n)
           tail == Low6(d, n - 1)
           RECURSIVE Shr(_, _)
           Shr(e, k) == IF k = 0 THEN e
             ELSE Shr([i \in 1..8 |-> (IF i = 1 THEN 0 ELSE (e[i - 1] % 64) * 4) + e[i] \div 64], k - 1)
       IN <<lead + (Shr(d, n - 1)[8] % Pow2(7 - n))>> \o tail

\* How many bytes a number needs at least.
NumberLen(d) ==
  LET hi == d[1] + d[2] + d[3] IN
  IF d[4] > 0 \/ d[5] >= 128 THEN 7
  ELSE IF d[5] >= 4 THEN 6
  ELSE IF d[5] > 0 \/ d[6] >= 32 THEN 5
  ELSE IF d[6] > 0 THEN 4
  ELSE IF d[7] >= 8 THEN 3
  ELSE IF d[7] > 0 \/ d[8] >= 128 THEN 2 ELSE 1

SizeField(f) == CASE f.bsc = 6 -> <<f.bs - 1>> [] f.bsc = 7 -> Digits(f.bs - 1, 2) [] OTHER -> <<>>

HeaderBytes(f) ==
  LET h == <<255, 248 + (IF f.variable THEN 1 ELSE 0), f.bsc * 16 + f.src, f.cha * 16 + f.bpc * 2>>
             \o CodedNumber(f.num, f.numlen) \o SizeField(f) \o f.srx
  IN Append(h, Crc8(h))

SubBps(f, ch) == f.bps + (IF (f.cha \in {8, 10} /\ ch = 2) \/ (f.cha = 9 /\ ch = 1) THEN 1 ELSE 0)

BodyBytes(f) == Aligned(FoldLeft(LAMBDA w, ch : PutSub(w, f.subs[ch], SubBps(f, ch)),
                                 W0, Iota(Len(f.subs))))

FrameBytes(f) == LET x == HeaderBytes(f) \o BodyBytes(f) IN x \o Digits(Crc16(x), 2)

\* What is coded for the channels c of a stereo frame.
Correlated(cha, c) ==
  LET n == Len(c[1])
      side == TLCEval([i \in 1..n |-> c[1][i] - c[2][i]])
  IN CASE cha < 8 -> c
       [] cha = 8 -> <<c[1], side>>
       [] cha = 9 -> <<side, c[2]>>
       [] cha = 10 -> <<TLCEval([i \in 1..n |-> (c[1][i] + c[2][i]) \div 2]), side>>

---------------------------------------------------------------------------
(* Metadata *)

MetaHeaderBytes(last, ty, len) == <<(IF last THEN 128 ELSE 0) + ty>> \o Digits(len, 3)
MetaBlockBytes(last, ty, body) == MetaHeaderBytes(last, ty, Len(body)) \o body

\* Stream info from numbers; samples are five digits, the first below 16.
StreamInfoBytes(minbs, maxbs, minfs, maxfs, rate, channels, bps, samples, md5) ==
  Digits(minbs, 2) \o Digits(maxbs, 2) \o Digits(minfs, 3) \o Digits(maxfs, 3)
  \o Digits(rate \div 16, 2)
  \o <<(rate % 16) * 16 + (channels - 1) * 2 + (bps - 1) \div 16,
       ((bps - 1) % 16) * 16 + samples[1]>>
  \o Tail(samples) \o md5

Le32Bytes(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
\* Vendor string and comments (each a sequence of bytes "NAME=value").
CommentBytes(vendor, comments) ==
  Le32Bytes(Len(vendor)) \o vendor \o Le32Bytes(Len(comments))
  \o FlattenSeq([i \in 1..Len(comments) |-> Le32Bytes(Len(comments[i])) \o comments[i]])

Marker == <<102, 76, 97, 67>>
=============================================================================
