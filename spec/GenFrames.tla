----------------------------- MODULE GenFrames -----------------------------
(***************************************************************************)
(* Generates well-formed frames as behaviours of an encoder that makes a   *)
(* free choice wherever the format leaves one.  Choices with few values    *)
(* (subframe types, orders, partition orders, wasted bits, header codes)   *)
(* are swept by the frame counter so that all of them occur; sample values *)
(* and the rest are drawn at random (TLC's -seed).                         *)
(***************************************************************************)
EXTENDS Encoder, Json, TLC, IOUtils

CONSTANTS Count,      \* number of frames to generate
          Lane,       \* offset into the sweeps, for parallel generators
          Profile     \* "mix": up to 576 samples; "small": to 80; "long": 257 to 65535;
                      \* "numeric": linear prediction at the edges of the arithmetic;
                      \* "pairs": all pairs of small and of extreme values in stereo, and
                      \* differences around powers of two;
                      \* "quot": long unary codes; "part": every kind of prediction in
                      \* blocks of 192 to 8192 samples, in many partitions;
                      \* "order": every partition order in blocks of many sizes

VARIABLES n, ph, f, pcm, todo

gvars == <<n, ph, f, pcm, todo>>

R(S) == RandomElement(S)
\* A sequence of k random elements of S, fixed at once.
Vec(k, S) == TLCEval([i \in 1..k |-> R(S)])
Pick(q) == q[R(1..Len(q))]
At(q, m) == q[(m % Len(q)) + 1]

---------------------------------------------------------------------------
(* Frame header *)

BpsCode(b) == CASE b = 8 -> 1 [] b = 12 -> 2 [] b = 16 -> 4 [] b = 20 -> 5 [] b = 24 -> 6
SizeByCode(c) == CASE c = 1 -> 192 [] c \in 2..5 -> 576 * Pow2(c - 2) [] c >= 8 -> 256 * Pow2(c - 8)

\* Block size code and block size.  Long blocks are for cheap subframes only.
Sizes == <<"tiny", "small", "short", "p2", "code", "small", "short", "tiny", "p2">>
PartSizes == <<<<1, 8, 6, 2>>, <<10, 3, 9, 3>>, <<11, 4, 11, 4>>, <<12, 5, 12, 13>>>>
ChooseSize(k) ==
  IF Profile = "numeric" THEN <<R({6, 7}), (k % 32) + 1 + R(0..16)>>
  ELSE IF Profile = "pairs" THEN <<7, 860 - (k % 4)>>
  ELSE IF Profile = "waste" THEN <<6, 1 + (k % 15)>>
  ELSE IF Profile = "vast" THEN At(<< <<7, 24576>>, <<7, 49152>>, <<15, 32768>>, <<14, 16384>>, <<7, 57344>>, <<7, 40960>> >>, k)
  ELSE IF Profile = "quot" THEN <<6, R(2..24)>>
  ELSE IF Profile = "part" THEN LET c == PartSizes[((k \div 8) % 4) + 1][(((k * 3) \div 8) % 4) + 1] IN
       IF c = 6 THEN <<7, Pick(<<480, 768, 960, 1000>>)>> ELSE <<c, SizeByCode(c)>>
  ELSE IF Profile = "order" THEN
       LET p == k % 14
           most == MaxOf(1, MinOf(60, 9300 \div Pow2(p)))
           m == IF (k \div 14) % 4 = 0 THEN most ELSE R(1..most)
           b == MaxOf(2, Pow2(p) * m)
       IN IF \E c \in 1..15 : c # 6 /\ c # 7 /\ SizeByCode(c) = b /\ R(1..2) = 1
          THEN <<CHOOSE c \in 1..15 : c # 6 /\ c # 7 /\ SizeByCode(c) = b, b>> ELSE <<7, b>>
  ELSE
  LET kind == IF Profile = "small" THEN Pick(<<"tiny", "small">>)
              ELSE IF Profile = "long" THEN "long" ELSE Sizes[((k - 1) % Len(Sizes)) + 1] IN
  CASE kind = "tiny"  -> LET b == R(1..16) IN <<R({6, 7}), b>>
    [] kind = "small" -> LET b == R(17..80) IN <<R({6, 7}), b>>
    [] kind = "short" -> LET b == R(81..255) IN <<R({6, 7}), b + (IF b % 7 = 0 THEN 1 ELSE 0)>>
    [] kind = "p2"    -> LET b == Pow2(R(4..7)) * R(1..2) IN <<R({6, 7}), b>>
    [] kind = "code"  -> LET c == Pick(<<1, 2, 8, 9, 1, 8>>) IN <<c, SizeByCode(c)>>
    [] kind = "long"  -> IF k % 2 = 0 THEN LET c == IF k % 4 = 0 THEN Pick(<<13, 14, 15>>) ELSE Pick(<<3, 4, 5, 10, 11, 12>>) IN <<c, SizeByCode(c)>>
                         ELSE <<7, Pick(<<257, 1152, 4095, 4097, 32768, 65535, 65534, 16384 * 3, 1000>>)>>

SrxOf(c) == CASE c = 12 -> Vec(1, 0..255) [] c \in {13, 14} -> Vec(2, 0..255) [] OTHER -> <<>>

NumberWithBits(b) ==       \* eight digits of a random number of exactly b bits
  LET byte(i) ==           \* i-th digit; bit b is the top one
        LET low == 8 * (8 - i) IN
        IF low >= b THEN 0
        ELSE IF low + 8 <= b THEN (IF low + 8 = b THEN 128 + R(0..127) ELSE R(0..255))
        ELSE Pow2(b - low - 1) + R(0..(Pow2(b - low - 1) - 1))
  IN FoldLeft(LAMBDA a, i : Append(a, byte(i)), <<>>, Iota(8))

(* NB: TLC evaluates a LET around an action anew for every use, which would  *)
(* draw several random values; the draws therefore live in value operators.  *)
DrawHeader ==
     LET k == n + Lane
         size == ChooseSize(k)
         long == size[2] > 1200
         cha == IF Profile = "numeric" THEN Pick(<<0, 0, 8, 9, 10, 10>>)
                ELSE IF Profile = "pairs" THEN 8 + (k % 3)
                ELSE IF Profile = "waste" THEN <<0, 8, 9, 10>>[(k % 4) + 1]
                ELSE IF Profile = "vast" THEN 0
                ELSE IF Profile \in {"quot", "part", "order"} THEN (IF size[2] < 600 /\ k % 3 = 0 THEN 1 ELSE 0)
                ELSE IF size[2] > 9000 THEN (IF k % 8 = 5 THEN 10 ELSE 0) ELSE IF long THEN Pick(<<0, 1, 8, 9, 10>>) ELSE IF k % 3 = 0 THEN R(0..7) ELSE (k * 5) % 11
         bps == IF Profile = "quot" THEN 24 ELSE IF Profile = "numeric" THEN Pick(<<16, 20, 24, 24, 12>>)
                ELSE <<8, 12, 16, 20, 24>>[((k \div (IF Profile = "pairs" THEN 3 ELSE IF Profile = "waste" THEN 4 ELSE 2)) % 5) + 1]
         variable == R({TRUE, FALSE})
         src == R(0..14)
         srx == SrxOf(src)
         num == NumberWithBits(IF variable THEN R(0..36) ELSE R(0..31))
     IN      [variable |-> variable, num |-> num, numlen |-> NumberLen(num),
              bsc |-> IF size[1] = 6 /\ size[2] > 256 THEN 7 ELSE size[1], bs |-> size[2],
              src |-> src, srx |-> srx, cha |-> cha, bpc |-> BpsCode(bps), bps |-> bps, subs |-> <<>>]
ChooseHeader ==
  /\ ph = "hdr"
  /\ f' = DrawHeader
  /\ ph' = "pcm"
  /\ UNCHANGED <<n, pcm, todo>>

---------------------------------------------------------------------------
(* Audio *)

Clip(v, b) == MaxOf(-Pow2(b - 1), MinOf(Pow2(b - 1) - 1, v))

\* One channel of bs samples of b bits, of various characters.
Signal(kind, bs, b) ==
  LET top == Pow2(b - 1) - 1
      bot == -Pow2(b - 1)
  IN CASE kind = "const" -> LET v == R({0, 1, -1, top, bot, R(bot..top)}) IN [i \in 1..bs |-> v]
       [] kind = "noise" -> Vec(bs, bot..top)
       [] kind = "quiet" -> LET a == Pow2(R(0..MinOf(5, b - 2))) IN Vec(bs, (-a)..a)
       [] kind = "extreme" -> Vec(bs, {top, bot})
       [] kind = "mixed" -> Vec(bs, {top, bot, 0, -1, 1})
       [] kind = "ramp" -> LET s == R(-9..9) v == R((bot \div 2)..(top \div 2))
                           IN FoldLeft(LAMBDA a, i : Append(a, Clip(v + s * i + R(-1..1), b)), <<>>, Iota(bs))
       [] kind = "walk" -> LET w == Pow2(R(0..(b - 3)))
                           IN FoldLeft(LAMBDA a, i : Append(a, Clip((IF i = 1 THEN 0 ELSE a[i - 1]) + R((-w)..w), b)),
                                       <<>>, Iota(bs))
       [] kind = "step" -> LET a == R(bot..top) c == R(bot..top) m == R(1..bs)
                           IN [i \in 1..bs |-> IF i <= m THEN a ELSE c]

Kinds == <<"walk", "noise", "quiet", "extreme", "ramp", "mixed", "walk", "step", "const", "noise", "quiet">>

\* Long unary codes: quotient Quot and Rice parameter Param of the largest value.
Quots == <<255, 256, 1024, 2047, 4096, 8192, 16384, 32767, 32768, 65535, 65536, 70000>>
Quot == At(Quots, n + Lane)
Param == At(<<0, 1, 3, 7>>, (n + Lane) \div Len(Quots))
Unfold(u) == IF u % 2 = 0 THEN u \div 2 ELSE -((u + 1) \div 2)
Spikes(bs) == LET at == R(1..bs) q == Quot p == Param
              IN TLCEval([i \in 1..bs |-> Unfold(IF i = at THEN q * Pow2(p) + R(0..(Pow2(p) - 1)) ELSE R(0..(3 * Pow2(p))))])

\* A pair whose difference is a power of two, or next to one.
Apart(m, b) ==
  LET top == Pow2(b - 1) - 1
      full == Pow2(b) - 1
      k == MinOf(m \div 18, b)
      d == ((m \div 2) % 3) - 1
      want == (IF m % 2 = 0 THEN Pow2(k) ELSE -Pow2(k)) + d
      side == MaxOf(-full, MinOf(full, want))
      low == MaxOf(-top - 1, -top - 1 - side)
      high == MinOf(top, top - side)
      r == CASE (m \div 6) % 3 = 0 -> low [] (m \div 6) % 3 = 1 -> high [] OTHER -> low + ((high - low) \div 3)
  IN <<r + side, r>>

\* All pairs of values near zero, and of values at the edges.
Pair(j, b) == IF j <= 361 THEN <<((j - 1) % 19) - 9, ((j - 1) \div 19) - 9>>
              ELSE IF j > 410 THEN Apart(j - 411, b)
              ELSE LET top == Pow2(b - 1) - 1
                       e == <<top, top - 1, 0, -1, 1, -top - 1, -top>>
                   IN <<e[((j - 362) % 7) + 1], e[((j - 362) \div 7) + 1]>>

\* Signals of large values for linear prediction.
Edge(bs, b) == LET k == R({"extreme", "noise", "mixed", "step", "extreme"}) IN Signal(k, bs, b)

\* The number of low-order bits to be zero in the last subframe (which, in
\* stereo with a difference, is the difference), every number in turn.
Wasted == LET b == f.bps + (IF f.cha = 0 THEN 0 ELSE 1) IN ((n + Lane) \div 20) % b
\* A channel whose difference to p has so many zeros: the least multiples in range, the
\* largest, or any.
Beside(p, w, b) ==
  LET top == Pow2(b - 1) - 1
      unit == Pow2(w)
      one(x) == LET least == 0 - ((top - x) \div unit)
                    most == (x + top + 1) \div unit
                IN x - unit * R({least, most, 0, R(least..most)})
  IN TLCEval([i \in 1..Len(p) |-> one(p[i])])
Wasting(bs, b) ==
  IF f.cha = 0 THEN LET s == Signal(R({"noise", "extreme", "const", "mixed"}), bs, b - Wasted)
                    IN [i \in 1..bs |-> IF b - Wasted = 1 THEN (-(s[i] % 2)) * Pow2(Wasted) ELSE s[i] * Pow2(Wasted)]
  ELSE IF pcm = <<>> THEN Signal(R({"noise", "extreme", "const"}), bs, b)
  ELSE IF R(1..3) = 1
  THEN LET d == Beside(SubSeq(pcm[1], 1, 1), Wasted, b)[1] - pcm[1][1]
                               ok == \A i \in 1..bs : pcm[1][i] + d \in (-Pow2(b - 1))..(Pow2(b - 1) - 1)
                           IN IF ok THEN [i \in 1..bs |-> pcm[1][i] + d] ELSE pcm[1]
  ELSE Beside(pcm[1], Wasted, b)

\* Channels are drawn one by one; wasted low-order bits are zero.
NumChannels == IF f.cha < 8 THEN f.cha + 1 ELSE 2
DrawChannel ==
     IF Profile = "pairs" THEN LET c == Len(pcm) + 1 IN [i \in 1..f.bs |-> Pair(((i + 37 * (n + Lane)) % f.bs) + 1, f.bps)[c]]
     ELSE IF Profile = "quot" THEN Spikes(f.bs)
     ELSE IF Profile = "waste" THEN Wasting(f.bs, f.bps)
     ELSE IF Profile = "vast" THEN Signal("quiet", f.bs, 8)
     ELSE IF Profile = "numeric" THEN Edge(f.bs, f.bps)
     ELSE IF Profile = "order" THEN Signal(Pick(<<"quiet", "quiet", "mixed">>), f.bs, f.bps)
     ELSE IF Profile = "part" THEN Signal(Pick(<<"noise", "quiet", "quiet", "mixed", "extreme">>), f.bs, f.bps)
     ELSE
     LET k == n + Lane + 3 * Len(pcm)
         kind == IF f.bs > 1200 THEN IF f.bs > 9000 /\ Len(pcm) = 1 THEN "const" ELSE <<"quiet", "step", "const", "noise", "step">>[(k % 5) + 1] ELSE Kinds[((k - 1) % Len(Kinds)) + 1]
         w == IF R(1..3) = 1 THEN R(1..(f.bps - 4)) ELSE 0
         s == Signal(kind, f.bs, f.bps - w)
         \* stereo: often the second channel resembles the first
         like == Len(pcm) = 1 /\ R(1..2) = 1
         c == IF like THEN TLCEval([i \in 1..f.bs |-> Clip(pcm[1][i] + R(-2..2), f.bps)])
              ELSE TLCEval([i \in 1..f.bs |-> s[i] * Pow2(w)])
     IN c
ChoosePcm ==
  /\ ph = "pcm"
  /\ pcm' = Append(pcm, DrawChannel)
  /\ IF Len(pcm') = NumChannels THEN ph' = "sub" /\ todo' = Correlated(f.cha, pcm')
     ELSE ph' = ph /\ todo' = todo
  /\ UNCHANGED <<n, f>>

---------------------------------------------------------------------------
(* Subframes *)

\* Number of low-order zero bits common to all samples, at most m.
RECURSIVE Trailing(_, _)
Trailing(s, m) ==
  LET ok(w) == \A i \in 1..Len(s) : s[i] % Pow2(w) = 0
  IN IF m = 0 THEN 0 ELSE IF ok(m) THEN m ELSE Trailing(s, m - 1)

\* The largest Rice quotient allowed: long unary codes occur, but rarely.
MaxQuot(k) == IF Profile = "quot" THEN Quot ELSE IF f.bs > 300 THEN 9 ELSE IF k % 13 = 0 THEN 700 ELSE IF k % 5 = 0 THEN 60 ELSE 12

\* Least Rice parameter keeping the quotients of r[from..to] at most q.
LeastParam(r, from, to, q) ==
  LET m == FoldLeft(LAMBDA a, i : MaxOf(a, Fold(r[i])), 0, [j \in 1..MaxOf(0, to - from + 1) |-> from + j - 1])
      RECURSIVE go(_)
      go(k) == IF m \div Pow2(k) <= q THEN k ELSE go(k + 1)
  IN go(0)

\* Completes a predicted subframe with the coding of its residual, if that
\* can be done; otherwise the samples are stored verbatim.
WithResidual(sub, k) ==
  LET bs == Len(sub.sam)
      fits == \A i \in (sub.order + 1)..bs : Predictable(Weights(sub), sub.shift, sub.sam, i)
      r == IF fits THEN Residuals(sub) ELSE <<>>
      small == fits /\ \A i \in 1..Len(r) : r[i] < Pow2(28) /\ r[i] > -Pow2(28)
      pmax == LET RECURSIVE go(_)
                  go(p) == IF p < 15 /\ bs % Pow2(p + 1) = 0 /\ bs \div Pow2(p + 1) >= sub.order /\ bs \div Pow2(p + 1) >= 1
                           THEN go(p + 1) ELSE p
              IN go(0)
      porder == IF Profile = "vast" THEN pmax ELSE IF Profile = "order" THEN MinOf(pmax, (n + Lane) % 14) ELSE IF Profile = "part" THEN MaxOf(0, pmax - (k % 4)) ELSE IF bs > 1200 THEN MaxOf(0, pmax - (k % 7)) ELSE IF R(1..3) = 1 THEN pmax ELSE R(0..pmax)
      plen == bs \div Pow2(porder)
      least == TLCEval([p \in 1..Pow2(porder) |-> LeastParam(r, MaxOf(1, (p - 1) * plen - sub.order + 1),
                                                           p * plen - sub.order, MaxQuot(k))])
      need == FoldLeft(LAMBDA a, x : MaxOf(a, x), 0, least)
      method == IF need > 14 THEN 1
                ELSE IF Profile = "quot" THEN ((n + Lane) \div (4 * Len(Quots))) % 2
                ELSE IF Profile = "vast" THEN (n + Lane + ((n + Lane) \div 6)) % 2 ELSE R(0..1)
      kmax == IF method = 0 THEN 14 ELSE 30
      \* the least parameter, a little or a lot more
      par(x) == IF Profile = "quot" THEN x ELSE IF R(1..4) = 1 THEN R(x..kmax) ELSE R(x..MinOf(kmax, x + 2))
      ks == TLCEval([i \in 1..Len(least) |-> par(least[i])])
  IN IF ~small \/ need > 30 THEN [sub EXCEPT !.ty = "verb", !.order = 0]
     ELSE [sub EXCEPT !.method = method, !.porder = porder, !.ks = ks]

Blank == [ty |-> "verb", order |-> 0, wasted |-> 0, sam |-> <<>>, coefs |-> <<>>, prec |-> 0,
          shift |-> 0, method |-> 0, porder |-> 0, ks |-> <<>>]

\* LPC coefficients: a stable looking predictor plus noise, or anything.
LpcCoefs(order, prec, shift) ==
  LET lim == Pow2(prec - 1)
      one == Pow2(MinOf(shift, 14))
      c(i) == MaxOf(-lim, MinOf(lim - 1, (IF i = 1 THEN one ELSE 0) + R((-MinOf(lim, 40))..MinOf(lim - 1, 40))))
      wild == R(1..3) = 1
      tame == TLCEval([i \in 1..order |-> c(i)])
  IN IF wild THEN Vec(order, (-lim)..(lim - 1)) ELSE tame

\* Coefficients at the edges, with the least shift that keeps the residual in range.
EdgeCoefs(order, prec) ==
  LET lim == Pow2(prec - 1) kind == R({"min", "max", "alt", "ends", "wild", "lone"})
      c(i) == CASE kind = "min" -> -lim [] kind = "max" -> lim - 1
                [] kind = "alt" -> IF i % 2 = 0 THEN -lim ELSE lim - 1
                [] kind = "ends" -> R({-lim, lim - 1})
                [] kind = "wild" -> R((-lim)..(lim - 1))
                [] kind = "lone" -> IF i = order THEN R({-lim, lim - 1}) ELSE 0
  IN TLCEval([i \in 1..order |-> c(i)])
Shifts(sub) ==
  LET ok(h) == /\ \A i \in (sub.order + 1)..Len(sub.sam) : Predictable(sub.coefs, h, sub.sam, i)
               /\ LET q == Residuals([sub EXCEPT !.shift = h]) IN \A i \in 1..Len(q) : q[i] < Pow2(27) /\ q[i] > -Pow2(27)
  IN {h \in 0..15 : ok(h)}
NumericSub(sub, order, k) ==
  LET prec == Pick(<<15, 15, 14, 13, R(1..15)>>)
      s1 == TLCEval([sub EXCEPT !.ty = "lpc", !.order = order, !.prec = prec, !.coefs = EdgeCoefs(order, prec)])
      hs == Shifts(s1)
  IN IF hs = {} THEN [sub EXCEPT !.ty = "verb"]
     ELSE WithResidual([s1 EXCEPT !.shift = IF R(1..2) = 1 THEN CHOOSE h \in hs : \A g \in hs : h <= g ELSE R(hs)], k)
\* A prediction of each kind in turn.
PartSub(sub, k) ==
  LET kind == k % 8
      free == IF kind <= 4 THEN kind ELSE IF kind = 5 THEN R(1..8) ELSE IF kind = 6 THEN R(9..12) ELSE R(13..32)
      order == MinOf(free, Len(sub.sam))
      prec == R(2..12)
      shift == R(MaxOf(0, prec - 3)..MinOf(15, prec + 2))
  IN IF kind <= 4 THEN WithResidual([sub EXCEPT !.ty = "fixed", !.order = order], k \div 8)
     ELSE WithResidual([sub EXCEPT !.ty = "lpc", !.order = order, !.prec = prec, !.shift = shift,
                                   !.coefs = LpcCoefs(order, prec, shift)], k \div 8)

DrawSub ==
     LET ch == Len(f.subs) + 1
         k == n + Lane + 7 * ch
         bps == SubBps(f, ch)
         s0 == todo[ch]
         zero == \A i \in 1..Len(s0) : s0[i] = 0
         wmax == IF zero THEN (IF Profile = "waste" THEN MinOf(bps - 1, Wasted) ELSE bps - 1)
                 ELSE Trailing(s0, IF Profile = "waste" THEN bps - 1 ELSE bps - 2)
         w == IF Profile = "waste" \/ R(1..3) > 1 THEN wmax ELSE R(0..wmax)
         s == TLCEval([i \in 1..Len(s0) |-> s0[i] \div Pow2(w)])
         const == \A i \in 1..Len(s) : s[i] = s[1]
         sub == [Blank EXCEPT !.sam = s, !.wasted = w]
         want == R({"const", "verb", "fixed", "fixed", "lpc", "pred"})
         order == IF want \in {"fixed"} THEN k % 5 ELSE (k % 32) + 1
         prec == R(1..15)
         shift == R(0..15)
         big == Len(s) > 1200
     IN        IF Profile = "numeric" THEN NumericSub(sub, IF ch = 1 THEN ((n + Lane) % 32) + 1 ELSE MinOf(32, R(1..Len(s))), k)
               ELSE IF Profile = "quot" THEN WithResidual([sub EXCEPT !.ty = "fixed"], k)
               ELSE IF Profile = "vast" THEN (IF k % 3 = 0 THEN WithResidual([sub EXCEPT !.ty = "fixed", !.order = R(0..1)], k)
                                              ELSE WithResidual([sub EXCEPT !.ty = "lpc", !.order = 1, !.prec = 5, !.shift = 4, !.coefs = <<15>>], k))
               ELSE IF Profile \in {"part", "order"} THEN PartSub(sub, IF Profile = "part" THEN n + Lane ELSE R(0..63))
               ELSE IF const /\ (want = "const" \/ big) /\ ~(big /\ k % 2 = 0) THEN [sub EXCEPT !.ty = "const"]
               ELSE IF big /\ k % 3 = 0 THEN WithResidual([sub EXCEPT !.ty = "lpc", !.order = (k % 3) + 1, !.prec = 5, !.shift = 4,
                                                                        !.coefs = LpcCoefs((k % 3) + 1, 5, 4)], k)
               ELSE IF big THEN WithResidual([sub EXCEPT !.ty = "fixed", !.order = k % 5], k)
               ELSE IF want \in {"const", "verb"} \/ order > Len(s) THEN [sub EXCEPT !.ty = "verb"]
               ELSE IF want = "fixed" THEN WithResidual([sub EXCEPT !.ty = "fixed", !.order = order], k)
               ELSE WithResidual([sub EXCEPT !.ty = "lpc", !.order = order, !.prec = prec,
                                             !.shift = shift, !.coefs = LpcCoefs(order, prec, shift)], k)
ChooseSub ==
  /\ ph = "sub"
  /\ f' = [f EXCEPT !.subs = Append(@, DrawSub)]
  /\ ph' = IF Len(f'.subs) = NumChannels THEN "emit" ELSE ph
  /\ UNCHANGED <<n, pcm, todo>>

Describe == [bs |-> f.bs, cha |-> f.cha, bps |-> f.bps, bsc |-> f.bsc, src |-> f.src,
             variable |-> f.variable, numlen |-> f.numlen,
             subs |-> [i \in 1..Len(f.subs) |->
                        [ty |-> f.subs[i].ty, order |-> f.subs[i].order, wasted |-> f.subs[i].wasted,
                         method |-> f.subs[i].method, porder |-> f.subs[i].porder,
                         prec |-> f.subs[i].prec, shift |-> f.subs[i].shift,
                         kmin |-> FoldLeft(LAMBDA a, x : MinOf(a, x), 99, f.subs[i].ks),
                         kmax |-> FoldLeft(LAMBDA a, x : MaxOf(a, x), -1, f.subs[i].ks)]]]

Emit ==
  /\ ph = "emit"
  /\ PrintT("CASE " \o ToJson([bytes |-> FrameBytes(f), pcm |-> pcm, num |-> f.num,
                               hdrlen |-> Len(HeaderBytes(f)), desc |-> Describe]))
  /\ n' = n + 1
  /\ ph' = IF n + 1 = Count THEN "done" ELSE "hdr"
  /\ f' = <<>> /\ pcm' = <<>> /\ todo' = <<>>

Init == n = 0 /\ ph = "hdr" /\ f = <<>> /\ pcm = <<>> /\ todo = <<>>
Next == ChooseHeader \/ ChoosePcm \/ ChooseSub \/ Emit
Spec == Init /\ [][Next]_gvars
=============================================================================
