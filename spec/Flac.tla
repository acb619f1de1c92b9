------------------------------- MODULE Flac -------------------------------
(***************************************************************************)
(* A FLAC decoder as a state machine.                                      *)
(*                                                                         *)
(* The environment is a *source*: a finite byte string together with a     *)
(* list of faults, each of which interrupts the delivery of bytes at one   *)
(* position (an I/O error of some kind, or a temporary end of input).      *)
(* How the bytes are grouped into reads is deliberately absent: the        *)
(* behaviour of the decoder must not depend on it (C04); BufReader.tla     *)
(* refines the byte-at-a-time source used here to a buffered one.          *)
(*                                                                         *)
(* One action below is one unit of work of the decoder: a header, a group  *)
(* of fields guarded by one decision, one Rice partition, one prediction.  *)
(* A *call* (open / next frame / take samples / read one metadata block)   *)
(* starts by setting pc, runs decoder actions, and ends in pc = "ret" with *)
(* the outcome in res.                                                     *)
(***************************************************************************)
EXTENDS Bytes, Crc, FiniteSets, TLC

CONSTANT Input(_)   \* case |-> [bytes |-> Seq(0..255), faults |-> Seq([at, kind])]

VARIABLES
  cid,    \* which source the machine is connected to
  pc,     \* control location
  ip,     \* number of source bytes consumed
  nf,     \* number of source faults that have fired
  fr,     \* the frame being decoded
  sf,     \* the subframe being decoded
  md,     \* the metadata being / having been read
  it,     \* the interleaving sample iterator
  res     \* outcome of the most recent call

vars == <<cid, pc, ip, nf, fr, sf, md, it, res>>

---------------------------------------------------------------------------
(* The source *)

B == Input(cid).bytes
F == Input(cid).faults

\* Bytes that can be consumed before the next fault (or the end) is hit.
Lim  == IF nf < Len(F) THEN F[nf + 1].at ELSE Len(B)
Have(n)     == ip + n <= Lim
HaveBits(p) == p <= 8 * Lim            \* bits up to bit position p available
Byte(i) == B[ip + i]                   \* i-th byte after the current position
Slice(from, to) == SubSeq(B, from, to)

\* Long stretches of bytes that are only ever skipped over may be left out of
\* B: hole [at, n] stands for n bytes after the first `at` of those in B.  Every
\* position is one in B.  Of the n bytes that follow, Listed(n) are in B.
Holes == IF "holes" \in DOMAIN Input(cid) THEN Input(cid).holes ELSE <<>>
Listed(n) == FoldLeft(LAMBDA m, h : IF ip <= h.at /\ h.at < ip + m
                                    THEN (IF h.at - ip + h.n <= m THEN m - h.n ELSE Assert(FALSE, "a skip ends in a hole"))
                                    ELSE m,
                      n, Holes)

\* An error has a class (ill-formed / not supported / input-output), for the
\* latter a kind, and -- for the specification only -- the rule that failed.
Err(c, why) == [k |-> "err", cls |-> c, kind |-> "", why |-> why]
IoErr(x)    == [k |-> "err", cls |-> "io", kind |-> x, why |-> "io"]
None     == [k |-> "none"]
Pending  == [k |-> "pending"]

\* What an operation that needs a byte reports when there is none: the fault
\* that is in the way, or an unexpected end of file.
StarveKind == IF nf < Len(F) THEN F[nf + 1].kind ELSE "eof"

Return(r) == pc' = "ret" /\ res' = r
\* The source cannot deliver: everything up to the obstacle is consumed, the
\* fault (if it is one) has fired, and the call fails with exactly that error.
Starve == /\ ip' = Lim
          /\ nf' = IF nf < Len(F) THEN nf + 1 ELSE nf
          /\ Return(IoErr(StarveKind))
Reject(c, why, n) == ip' = ip + n /\ nf' = nf /\ Return(Err(c, why))
Consume(n) == ip' = ip + n /\ nf' = nf /\ res' = res

---------------------------------------------------------------------------
(* Frame header *)

NoFrame == [start |-> 0, bs |-> 0, bsx |-> 0, srx |-> 0, nch |-> 0, mode |-> "ind",
            bps |-> 0, variable |-> FALSE, num |-> <<>>, bp |-> 0, chans |-> <<>>,
            wide |-> FALSE]
NoSub == [ty |-> "none", order |-> 0, wasted |-> 0, bps |-> 0, sam |-> <<>>,
          coefs |-> <<>>, shift |-> 0, rice |-> 0, parts |-> 0, plen |-> 0,
          part |-> 0, left |-> 0, param |-> -1]

\* Sync code, reserved bit, blocking strategy -- or the end of the stream,
\* which is only an end if not a single byte of a next frame is there.
FrameSync ==
  /\ pc = "sync"
  /\ UNCHANGED <<cid, sf, md, it>>
  /\ IF ~Have(1) /\ StarveKind = "eof" THEN
       /\ ip' = Lim
       /\ nf' = IF nf < Len(F) THEN nf + 1 ELSE nf
       /\ Return(None) /\ fr' = fr
     ELSE IF ~Have(2) THEN Starve /\ fr' = fr
     ELSE LET w == Byte(1) * 256 + Byte(2) IN
       IF w \div 4 # 16382 THEN Reject("fmt", "sync", 2) /\ fr' = fr
       ELSE IF (w \div 2) % 2 = 1 THEN Reject("fmt", "sync", 2) /\ fr' = fr
       ELSE /\ fr' = [NoFrame EXCEPT !.start = ip, !.variable = (w % 2 = 1)]
            /\ Consume(2) /\ pc' = "codes"

BlockSizeOf(c) ==     \* by the 4-bit code; 0 where it is stored separately
  CASE c = 1 -> 192
    [] c \in 2..5 -> 576 * Pow2(c - 2)
    [] c \in 8..15 -> 256 * Pow2(c - 8)
    [] OTHER -> 0
BpsOf(c) == CASE c = 1 -> 8 [] c = 2 -> 12 [] c = 4 -> 16 [] c = 5 -> 20
              [] c = 6 -> 24 [] OTHER -> 0   \* 0: not in the frame header

\* Block size and sample rate codes, then channel layout and sample width.
FrameCodes ==
  /\ pc = "codes"
  /\ UNCHANGED <<cid, sf, md, it>>
  /\ IF ~Have(1) THEN Starve /\ fr' = fr
     ELSE LET c1 == Byte(1)
              bsc == c1 \div 16
              src == c1 % 16
          IN
     IF bsc = 0 \/ src = 15 THEN Reject("fmt", "code", 1) /\ fr' = fr
     ELSE IF ~Have(2) THEN Starve /\ fr' = fr
     ELSE LET c2 == Byte(2)
              cha == c2 \div 16
              bpc == (c2 \div 2) % 8
          IN
     IF cha > 10 \/ bpc \in {3, 7} \/ c2 % 2 = 1
     THEN Reject("fmt", "code", 2) /\ fr' = fr
     ELSE /\ fr' = [fr EXCEPT
                 !.bs = BlockSizeOf(bsc),
                 !.bsx = IF bsc = 6 THEN 1 ELSE IF bsc = 7 THEN 2 ELSE 0,
                 !.srx = IF src = 12 THEN 1 ELSE IF src \in {13, 14} THEN 2 ELSE 0,
                 !.nch = IF cha < 8 THEN cha + 1 ELSE 2,
                 !.mode = CASE cha < 8 -> "ind" [] cha = 8 -> "left"
                            [] cha = 9 -> "right" [] OTHER -> "mid",
                 !.bps = BpsOf(bpc)]
          /\ Consume(2) /\ pc' = "number"

\* The frame or sample number, coded like UTF-8 in one to seven bytes.
LeadingOnes(x) == 8 - BitLen(255 - x)
RECURSIVE Varint(_, _, _)
\* Continuation bytes i..n after the lead byte; acc is the value so far.
Varint(i, n, acc) ==
  IF i > n THEN [st |-> "ok", used |-> n, v |-> acc]
  ELSE IF ~Have(i) THEN [st |-> "starve", used |-> i - 1, v |-> acc]
  ELSE IF Byte(i) \div 64 # 2 THEN [st |-> "fmt", used |-> i, v |-> acc]
  ELSE Varint(i + 1, n, DMul(acc, 64, Byte(i) % 64))

FrameNumber ==
  /\ pc = "number"
  /\ UNCHANGED <<cid, sf, md, it>>
  /\ IF ~Have(1) THEN Starve /\ fr' = fr
     ELSE LET n == LeadingOnes(Byte(1)) IN
     IF n = 1 \/ n = 8 THEN Reject("fmt", "number", 1) /\ fr' = fr
     ELSE LET more == IF n = 0 THEN 0 ELSE n - 1
              low  == IF n = 7 THEN 0 ELSE Byte(1) % Pow2(7 - n)
              r == Varint(2, more + 1, Digits(low, 8))
          IN
     IF r.st = "starve" THEN Starve /\ fr' = fr
     ELSE IF r.st = "fmt" THEN Reject("fmt", "number", r.used) /\ fr' = fr
     ELSE IF ~fr.variable /\ (\E j \in 1..4 : r.v[j] # 0 \/ r.v[5] >= 128)
          THEN Reject("fmt", "number", more + 1) /\ fr' = fr      \* over 31 bits
     ELSE /\ fr' = [fr EXCEPT !.num = r.v]
          /\ Consume(more + 1) /\ pc' = "ext"

\* Block size and sample rate stored at the end of the header, then CRC-8.
FrameExt ==
  /\ pc = "ext"
  /\ UNCHANGED <<cid, sf, md, it>>
  /\ IF ~Have(fr.bsx) THEN Starve /\ fr' = fr
     ELSE LET x == IF fr.bsx = 1 THEN Byte(1)
                   ELSE IF fr.bsx = 2 THEN Byte(1) * 256 + Byte(2) ELSE 0
          IN
     IF x = 65535 THEN Reject("fmt", "size", 2) /\ fr' = fr
     ELSE IF ~Have(fr.bsx + fr.srx) THEN Starve /\ fr' = fr
     ELSE /\ fr' = [fr EXCEPT !.bs = IF fr.bsx = 0 THEN fr.bs ELSE x + 1]
          /\ Consume(fr.bsx + fr.srx) /\ pc' = "crc8"

FrameCrc8 ==
  /\ pc = "crc8"
  /\ UNCHANGED <<cid, sf, md, it>>
  /\ IF ~Have(1) THEN Starve /\ fr' = fr
     ELSE IF Crc8(Slice(fr.start + 1, ip)) # Byte(1)
          THEN Reject("fmt", "crc8", 1) /\ fr' = fr
     ELSE IF fr.bps = 0 THEN Reject("unsup", "nobps", 1) /\ fr' = fr
     ELSE /\ fr' = [fr EXCEPT !.bp = 8 * (ip + 1)]
          /\ Consume(1) /\ pc' = "subhdr"

---------------------------------------------------------------------------
(* Subframes.  fr.bp is the bit position; ip is brought up to date when the *)
(* frame body ends or fails.                                               *)

BytesOf(bits) == (bits + 7) \div 8
RejectBits(c, why, p) == ip' = BytesOf(p) /\ nf' = nf /\ Return(Err(c, why))
Hold == ip' = ip /\ nf' = nf /\ res' = res

\* The side channel carries one bit more than the others.
ChannelBps(ch) ==
  fr.bps + (IF \/ fr.mode \in {"left", "mid"} /\ ch = 2
               \/ fr.mode = "right" /\ ch = 1 THEN 1 ELSE 0)

SubHeader ==
  /\ pc = "subhdr"
  /\ UNCHANGED <<cid, md, it>>
  /\ LET p == fr.bp
         bps == ChannelBps(Len(fr.chans) + 1)
     IN
     IF ~HaveBits(p + 1) THEN Starve /\ UNCHANGED <<fr, sf>>
     ELSE IF Bits(B, p, 1) = 1 THEN RejectBits("fmt", "sub", p + 1) /\ UNCHANGED <<fr, sf>>
     ELSE IF ~HaveBits(p + 7) THEN Starve /\ UNCHANGED <<fr, sf>>
     ELSE LET t == Bits(B, p + 1, 6) IN
     IF t \in (2..7) \cup (13..31) THEN RejectBits("fmt", "sub", p + 7) /\ UNCHANGED <<fr, sf>>
     ELSE IF ~HaveBits(p + 8) THEN Starve /\ UNCHANGED <<fr, sf>>
     ELSE LET flag == Bits(B, p + 7, 1)
              z == IF flag = 0 THEN 0 ELSE Unary(B, p + 8, Lim)
              wasted == IF flag = 0 THEN 0 ELSE z + 1
              q == p + 8 + wasted
              ty == CASE t = 0 -> "const" [] t = 1 -> "verb"
                      [] t \in 8..12 -> "fixed" [] OTHER -> "lpc"
              order == CASE ty = "fixed" -> t - 8 [] ty = "lpc" -> t - 31 [] OTHER -> 0
          IN
     IF z = -1 THEN Starve /\ UNCHANGED <<fr, sf>>
     ELSE IF wasted > 31 \/ wasted >= bps THEN RejectBits("fmt", "sub", q) /\ UNCHANGED <<fr, sf>>
     ELSE IF order > fr.bs THEN RejectBits("fmt", "sub", q) /\ UNCHANGED <<fr, sf>>
     ELSE /\ sf' = [NoSub EXCEPT !.ty = ty, !.order = order, !.wasted = wasted,
                                 !.bps = bps - wasted]
          /\ fr' = [fr EXCEPT !.bp = q]
          /\ Hold
          /\ pc' = IF ty = "const" THEN "const" ELSE "plain"

SubConstant ==
  /\ pc = "const"
  /\ UNCHANGED <<cid, md, it>>
  /\ LET q == fr.bp + sf.bps IN
     IF ~HaveBits(q) THEN Starve /\ UNCHANGED <<fr, sf>>
     ELSE LET v == Signed(Bits(B, fr.bp, sf.bps), sf.bps) IN
          /\ sf' = [sf EXCEPT !.sam = [i \in 1..fr.bs |-> v]]
          /\ fr' = [fr EXCEPT !.bp = q]
          /\ Hold /\ pc' = "subend"

\* Samples stored as they are: a whole verbatim subframe, or the warm-up.
SubPlain ==
  /\ pc = "plain"
  /\ UNCHANGED <<cid, md, it>>
  /\ LET n == IF sf.ty = "verb" THEN fr.bs ELSE sf.order
         q == fr.bp + n * sf.bps
     IN
     IF ~HaveBits(q) THEN Starve /\ UNCHANGED <<fr, sf>>
     ELSE /\ sf' = [sf EXCEPT !.sam =
                 [i \in 1..n |-> Signed(Bits(B, fr.bp + (i - 1) * sf.bps, sf.bps), sf.bps)]]
          /\ fr' = [fr EXCEPT !.bp = q]
          /\ Hold
          /\ pc' = CASE sf.ty = "verb" -> "subend" [] sf.ty = "fixed" -> "reshdr"
                     [] OTHER -> "qlp"

\* Predictor precision, shift and coefficients; coefs[1] weighs the newest sample.
SubQlp ==
  /\ pc = "qlp"
  /\ UNCHANGED <<cid, md, it>>
  /\ LET p == fr.bp IN
     IF ~HaveBits(p + 4) THEN Starve /\ UNCHANGED <<fr, sf>>
     ELSE LET prec == Bits(B, p, 4) + 1 IN
     IF prec = 16 THEN RejectBits("fmt", "sub", p + 4) /\ UNCHANGED <<fr, sf>>
     ELSE IF ~HaveBits(p + 9) THEN Starve /\ UNCHANGED <<fr, sf>>
     ELSE LET shift == Signed(Bits(B, p + 4, 5), 5)
              q == p + 9 + sf.order * prec
          IN
     IF shift < 0 THEN RejectBits("unsup", "sub", p + 9) /\ UNCHANGED <<fr, sf>>
     ELSE IF ~HaveBits(q) THEN Starve /\ UNCHANGED <<fr, sf>>
     ELSE /\ sf' = [sf EXCEPT !.shift = shift, !.coefs =
                 [i \in 1..sf.order |-> Signed(Bits(B, p + 9 + (i - 1) * prec, prec), prec)]]
          /\ fr' = [fr EXCEPT !.bp = q]
          /\ Hold /\ pc' = "reshdr"

ResHeader ==
  /\ pc = "reshdr"
  /\ UNCHANGED <<cid, md, it>>
  /\ LET p == fr.bp IN
     IF ~HaveBits(p + 2) THEN Starve /\ UNCHANGED <<fr, sf>>
     ELSE LET method == Bits(B, p, 2) IN
     IF method > 1 THEN RejectBits("fmt", "sub", p + 2) /\ UNCHANGED <<fr, sf>>
     ELSE IF ~HaveBits(p + 6) THEN Starve /\ UNCHANGED <<fr, sf>>
     ELSE LET po == Bits(B, p + 2, 4)
              plen == fr.bs \div Pow2(po)
          IN
     \* Partitions must tile the block, and the first must hold the warm-up.
     IF fr.bs % Pow2(po) # 0 \/ sf.order > plen
     THEN RejectBits("fmt", "sub", p + 6) /\ UNCHANGED <<fr, sf>>
     ELSE /\ sf' = [sf EXCEPT !.rice = method + 4, !.parts = Pow2(po), !.plen = plen,
                              !.part = 1, !.left = plen - sf.order, !.param = -1]
          /\ fr' = [fr EXCEPT !.bp = p + 6]
          /\ Hold /\ pc' = "rice"

\* One Rice-coded value; `wide` once a value is too large to be modelled.
RiceStep(acc, i) ==
  IF acc.st # "ok" THEN acc ELSE
  LET q == Unary(B, acc.p, Lim)
      p2 == acc.p + q + 1
      k == acc.k
  IN IF q = -1 \/ ~HaveBits(p2 + k) THEN [acc EXCEPT !.st = "starve"]
     ELSE LET big == q > (Pow2(30) - 1) \div Pow2(k)
              v == IF big THEN 0 ELSE q * Pow2(k) + Bits(B, p2, k)
              s == IF v % 2 = 1 THEN -1 - v \div 2 ELSE v \div 2
          IN [acc EXCEPT !.p = p2 + k, !.out = Append(acc.out, s), !.wide = acc.wide \/ big]

Chunk == 512   \* samples decoded per step

\* (Results that are used several times in an action are bound by a quantifier
\* over a singleton, because TLC evaluates a LET around an action repeatedly.)
RiceChunk ==
  FoldLeft(RiceStep, [st |-> "ok", p |-> fr.bp, k |-> sf.param, out |-> <<>>, wide |-> fr.wide],
           Iota(MinOf(Chunk, sf.left)))

\* Up to Chunk residuals of the current partition (its parameter first).
RicePartition ==
  /\ pc = "rice"
  /\ UNCHANGED <<cid, md, it>>
  /\ IF sf.param = -1 THEN
       LET q == fr.bp + sf.rice IN
       IF ~HaveBits(q) THEN Starve /\ UNCHANGED <<fr, sf>>
       ELSE LET k == Bits(B, fr.bp, sf.rice) IN
       IF k = Pow2(sf.rice) - 1 THEN RejectBits("unsup", "sub", q) /\ UNCHANGED <<fr, sf>>
       ELSE /\ sf' = [sf EXCEPT !.param = k]
            /\ fr' = [fr EXCEPT !.bp = q]
            /\ Hold /\ pc' = pc
     ELSE \E r \in {RiceChunk} : LET n == MinOf(Chunk, sf.left) IN
       IF r.st = "starve" THEN Starve /\ UNCHANGED <<fr, sf>>
       ELSE /\ fr' = [fr EXCEPT !.bp = r.p, !.wide = r.wide]
            /\ Hold
            /\ IF sf.left > n THEN
                 /\ sf' = [sf EXCEPT !.sam = @ \o r.out, !.left = @ - n]
                 /\ pc' = pc
               ELSE
                 /\ sf' = [sf EXCEPT !.sam = @ \o r.out, !.part = @ + 1,
                                     !.left = sf.plen, !.param = -1]
                 /\ pc' = IF sf.part = sf.parts THEN "predict" ELSE pc

(***************************************************************************)
(* Prediction.  The predictor value is floor(sum / 2^shift) computed over  *)
(* the integers.  To stay below 2^31 the sum is kept as hi * 2^14 + lo.    *)
(***************************************************************************)
WideSample(v) == v >= 33554432 \/ v < -33554432      \* outside 26 bits
Split == 16384

FixedCoefs(o) == CASE o = 0 -> <<>> [] o = 1 -> <<1>> [] o = 2 -> <<2, -1>>
                   [] o = 3 -> <<3, -3, 1>> [] o = 4 -> <<4, -6, 4, -1>>

\* Inner product of the coefficients with the most recent samples of s.
Dot(coefs, s) ==
  LET n == Len(s)
      Add(acc, j) == LET x == s[n + 1 - j]
                         lo == acc[2] + coefs[j] * (x % Split)
                     IN <<acc[1] + coefs[j] * (x \div Split) + lo \div Split, lo % Split>>
  IN FoldLeft(Add, <<0, 0>>, Iota(Len(coefs)))

\* floor((hi * 2^14 + lo) / 2^shift), or "wide" if it does not fit 30 bits.
Shifted(d, shift) ==
  LET room == IF shift >= 14 THEN Pow2(30) ELSE Pow2(16 + shift) - 1 IN
  IF d[1] >= room \/ d[1] <= -room THEN [wide |-> TRUE, v |-> 0]
  ELSE IF shift >= 14 THEN [wide |-> FALSE, v |-> d[1] \div Pow2(shift - 14)]
  ELSE [wide |-> FALSE, v |-> d[1] * Pow2(14 - shift) + d[2] \div Pow2(shift)]

PredictStep(coefs, shift, acc, r) ==
  IF acc.wide THEN [acc EXCEPT !.out = Append(acc.out, 0)] ELSE
  LET t == Shifted(Dot(coefs, acc.out), shift)
      v == IF t.wide \/ r > Pow2(29) \/ r < -Pow2(29) \/ t.v > Pow2(29) \/ t.v < -Pow2(29)
           THEN Pow2(29) ELSE t.v + r
  IN IF WideSample(v) THEN [wide |-> TRUE, out |-> Append(acc.out, 0)]
     ELSE [wide |-> FALSE, out |-> Append(acc.out, v)]

\* Samples reconstructed so far.
Reconstructed == IF sf.part > 0 THEN sf.order ELSE sf.left
PredictChunk ==
  LET coefs == IF sf.ty = "fixed" THEN FixedCoefs(sf.order) ELSE sf.coefs
      done == Reconstructed
  IN FoldLeft(LAMBDA a, x : PredictStep(coefs, sf.shift, a, x),
              [wide |-> fr.wide, out |-> SubSeq(sf.sam, done - sf.order + 1, done)],
              SubSeq(sf.sam, done + 1, MinOf(done + Chunk, fr.bs)))

\* Extends the reconstructed samples by the next Chunk residuals.
Predict ==
  /\ pc = "predict"
  /\ UNCHANGED <<cid, md, it>>
  /\ \E r \in {PredictChunk} :
       LET done == Reconstructed
           next == MinOf(done + Chunk, fr.bs)
       IN
        /\ sf' = [sf EXCEPT !.sam = SubSeq(@, 1, done - sf.order) \o r.out
                                     \o SubSeq(@, next + 1, fr.bs),
                            !.part = 0, !.left = next]
        /\ fr' = [fr EXCEPT !.wide = r.wide]
        /\ Hold
        /\ pc' = IF next = fr.bs THEN "subend" ELSE pc

\* Restores the wasted low-order bits; <<>> if the result is too wide.
Unwasted(s, w) ==
  IF w = 0 THEN s
  ELSE LET m == Pow2(MinOf(w, 25))
           lim == Pow2(25 - MinOf(w, 25))
       IN IF \E i \in 1..Len(s) : s[i] >= lim \/ s[i] < -lim THEN <<>>
          ELSE [i \in 1..Len(s) |-> s[i] * m]

\* File the channel.
SubEnd ==
  /\ pc = "subend"
  /\ UNCHANGED <<cid, md, it>>
  /\ \E c \in {IF fr.wide THEN <<>> ELSE Unwasted(sf.sam, sf.wasted)} :
        /\ fr' = [fr EXCEPT !.chans = Append(@, c), !.wide = @ \/ c = <<>>]
        /\ sf' = NoSub
        /\ IF fr.start = -1        \* a subframe on its own
           THEN /\ ip' = BytesOf(fr.bp) /\ nf' = nf
                /\ Return([k |-> "sub", v |-> c, wide |-> fr.wide \/ c = <<>>])
           ELSE /\ Hold
                /\ pc' = IF Len(fr.chans) + 1 = fr.nch THEN "footer" ELSE "subhdr"

---------------------------------------------------------------------------
(* Frame end *)

Decorrelated(mode, c) ==
  IF mode = "ind" THEN c ELSE
  LET n == Len(c[1])
      mid(i) == 2 * c[1][i] + (c[2][i] % 2)
  IN CASE mode = "left"  -> <<c[1], [i \in 1..n |-> c[1][i] - c[2][i]]>>
       [] mode = "right" -> <<[i \in 1..n |-> c[1][i] + c[2][i]], c[2]>>
       [] mode = "mid"   -> <<[i \in 1..n |-> (mid(i) + c[2][i]) \div 2],
                              [i \in 1..n |-> (mid(i) - c[2][i]) \div 2]>>

\* The block size frame numbers count in: that of the stream if it is known to
\* be fixed (the last frame may be shorter), otherwise the frame's own.
StreamBs == IF md.si.maxbs > 0 /\ md.si.minbs = md.si.maxbs THEN md.si.maxbs ELSE fr.bs
\* Time stamp as eight base-256 digits.
TimeOf(f) == IF f.variable THEN f.num ELSE DMul(f.num, StreamBs, 0)

\* The body ends at the next byte boundary; two bytes of CRC-16 follow.
FrameFooter ==
  /\ pc = "footer"
  /\ UNCHANGED <<cid, sf, md, it, fr>>
  /\ LET e == BytesOf(fr.bp) IN
     IF e + 2 > Lim THEN Starve
     ELSE IF Crc16(Slice(fr.start + 1, e)) # B[e + 1] * 256 + B[e + 2]
          THEN ip' = e + 2 /\ nf' = nf /\ Return(Err("fmt", "crc16"))
     ELSE /\ ip' = e + 2 /\ nf' = nf
          /\ Return([k |-> "block", time |-> TimeOf(fr), bs |-> fr.bs, nch |-> fr.nch,
                     wide |-> fr.wide, fixed |-> ~fr.variable, num |-> fr.num,
                     chans |-> IF fr.wide THEN <<>> ELSE Decorrelated(fr.mode, fr.chans)])

---------------------------------------------------------------------------
(* Metadata *)

NoSi == [minbs |-> 0, maxbs |-> 0, minfs |-> 0, maxfs |-> 0, rate |-> 0,
         channels |-> 0, bps |-> 0, samples |-> <<0, 0, 0, 0, 0>>, md5 |-> <<>>]
NoVc == [vendor |-> <<>>, comments |-> <<>>]
\* goal: "stream" (all blocks, then audio) or "block" (one block only)
NoMd == [goal |-> "stream", only |-> FALSE, want |-> TRUE, keep |-> TRUE, first |-> TRUE,
         last |-> FALSE, ty |-> 0, len |-> 0, si |-> NoSi, hasvc |-> FALSE, vc |-> NoVc,
         left |-> 0, count |-> 0, blk |-> [k |-> "none"], big |-> 0]

Be24(i) == (B[i] * 256 + B[i + 1]) * 256 + B[i + 2]
\* Little-endian 32-bit, saturating at 2^30: every limit it is compared to is smaller.
Le32(i) == IF B[i + 3] >= 64 THEN Pow2(30)
           ELSE ((B[i + 3] * 256 + B[i + 2]) * 256 + B[i + 1]) * 256 + B[i]

Magic ==
  /\ pc = "magic"
  /\ UNCHANGED <<cid, fr, sf, md, it>>
  /\ IF ~Have(4) THEN Starve
     ELSE IF Slice(ip + 1, ip + 4) # <<102, 76, 97, 67>> THEN Reject("fmt", "magic", 4)
     ELSE Consume(4) /\ pc' = "mhdr"

MetaHeader ==
  /\ pc = "mhdr"
  /\ UNCHANGED <<cid, fr, sf, it>>
  /\ IF ~Have(4) THEN Starve /\ md' = md
     ELSE /\ md' = [md EXCEPT !.last = (Byte(1) >= 128), !.ty = Byte(1) % 128,
                              !.len = Be24(ip + 2)]
          /\ Consume(4) /\ pc' = "mbody"

TenMiB == 10485760
Block(b) == md' = [md EXCEPT !.blk = b] /\ pc' = "mend"
\* big: the longest block whose contents were accepted for storing.
Stored == [md EXCEPT !.big = MaxOf(@, md.len)]

StreamInfoAt(i) ==
  [minbs |-> B[i] * 256 + B[i + 1],
   maxbs |-> B[i + 2] * 256 + B[i + 3],
   minfs |-> Be24(i + 4),
   maxfs |-> Be24(i + 7),
   rate  |-> Be24(i + 10) \div 16,
   channels |-> ((B[i + 12] \div 2) % 8) + 1,
   bps   |-> (B[i + 12] % 2) * 16 + B[i + 13] \div 16 + 1,
   samples |-> <<B[i + 13] % 16, B[i + 14], B[i + 15], B[i + 16], B[i + 17]>>,
   md5   |-> Slice(i + 18, i + 33)]
SiValid(s) == /\ s.minbs <= s.maxbs
              /\ s.minbs >= 16
              /\ s.minfs <= s.maxfs \/ s.maxfs = 0
              /\ s.rate > 0 /\ s.rate <= 655350

\* Skipped body: what the block is reported as when read on its own.
SkipBody(b) ==
  IF ~Have(Listed(md.len)) THEN Starve /\ md' = md
  ELSE Consume(Listed(md.len)) /\ Block(b)

MetaBody ==
  /\ pc = "mbody"
  /\ UNCHANGED <<cid, fr, sf, it>>
  /\ CASE md.ty = 0 ->
            IF md.len # 34 THEN Reject("fmt", "si", 0) /\ md' = md
            ELSE IF ~Have(34) THEN Starve /\ md' = md
            ELSE LET s == StreamInfoAt(ip + 1) IN
                 IF ~SiValid(s) THEN Reject("fmt", "si", 34) /\ md' = md
                 ELSE Consume(34) /\ Block([k |-> "si", si |-> s])
       [] md.ty \in {1, 3, 5, 6} -> SkipBody([k |-> "pad", len |-> md.len])
       [] md.ty = 2 ->
            IF md.len < 4 THEN Reject("fmt", "body", 0) /\ md' = md
            ELSE IF md.len > TenMiB THEN Reject("unsup", "body", 0) /\ md' = md
            ELSE IF ~Have(md.len) THEN Starve /\ md' = Stored
            ELSE /\ Consume(md.len) /\ pc' = "mend"
                 /\ md' = [Stored EXCEPT !.blk = [k |-> "app", id |-> Slice(ip + 1, ip + 4),
                                                 data |-> Slice(ip + 5, ip + md.len)]]
       [] md.ty = 4 ->
            IF md.len < 8 THEN Reject("fmt", "body", 0) /\ md' = md
            ELSE IF md.len > TenMiB THEN Reject("unsup", "body", 0) /\ md' = md
            ELSE Consume(0) /\ md' = Stored /\ pc' = "vcvendor"
       [] md.ty = 127 -> Reject("fmt", "body", 0) /\ md' = md
       [] OTHER -> SkipBody([k |-> "reserved"])

(* UTF-8 validity as a small automaton over bytes.  State: <<pending        *)
(* continuation bytes, least and greatest value allowed for the next one>>. *)
Utf8Step(s, x) ==
  IF s[1] = -1 THEN s
  ELSE IF s[1] = 0 THEN
    IF x < 128 THEN s
    ELSE IF x \in 194..223 THEN <<1, 128, 191>>
    ELSE IF x = 224 THEN <<2, 160, 191>>
    ELSE IF x = 237 THEN <<2, 128, 159>>
    ELSE IF x \in 225..239 THEN <<2, 128, 191>>
    ELSE IF x = 240 THEN <<3, 144, 191>>
    ELSE IF x \in 241..243 THEN <<3, 128, 191>>
    ELSE IF x = 244 THEN <<3, 128, 143>>
    ELSE <<-1, 0, 0>>
  ELSE IF x >= s[2] /\ x <= s[3] THEN <<s[1] - 1, 128, 191>>
  ELSE <<-1, 0, 0>>
Utf8(s) == FoldLeft(Utf8Step, <<0, 128, 191>>, s)[1] = 0

\* Vendor string: length prefix, bytes; then the number of comments.
VcVendor ==
  /\ pc = "vcvendor"
  /\ UNCHANGED <<cid, fr, sf, it>>
  /\ IF ~Have(4) THEN Starve /\ md' = md
     ELSE LET n == Le32(ip + 1) IN
     IF n > md.len - 8 THEN Reject("fmt", "vc", 4) /\ md' = md
     ELSE IF ~Have(4 + n) THEN Starve /\ md' = md
     ELSE LET v == Slice(ip + 5, ip + 4 + n) IN
     IF ~Utf8(v) THEN Reject("fmt", "vc", 4 + n) /\ md' = md
     ELSE IF ~Have(8 + n) THEN Starve /\ md' = md
     ELSE LET c == Le32(ip + 5 + n) IN
     IF c >= md.len \div 4 THEN Reject("fmt", "vc", 8 + n) /\ md' = md
     ELSE /\ md' = [md EXCEPT !.vc = [vendor |-> v, comments |-> <<>>],
                              !.left = md.len - 8 - n, !.count = c]
          /\ Consume(8 + n) /\ pc' = "vcentry"

EqualsAt(s) == SelectInSeq(s, LAMBDA x : x = 61)   \* 0 if there is none

\* One comment, or the end of the list.
VcEntry ==
  /\ pc = "vcentry"
  /\ UNCHANGED <<cid, fr, sf, it>>
  /\ IF md.left < 4 \/ Len(md.vc.comments) = md.count THEN
       IF md.left # 0 \/ Len(md.vc.comments) # md.count THEN Reject("fmt", "vc", 0) /\ md' = md
       ELSE Consume(0) /\ Block([k |-> "vc", vc |-> md.vc])
     ELSE IF ~Have(4) THEN Starve /\ md' = md
     ELSE LET n == Le32(ip + 1) IN
     IF n > md.left - 4 THEN Reject("fmt", "vc", 4) /\ md' = md
     ELSE IF n = 0 THEN            \* tolerated and dropped
       /\ md' = [md EXCEPT !.left = @ - 4, !.count = @ - 1]
       /\ Consume(4) /\ pc' = pc
     ELSE IF ~Have(4 + n) THEN Starve /\ md' = md
     ELSE LET s == Slice(ip + 5, ip + 4 + n)
              eq == EqualsAt(s)
          IN
     IF eq = 0 \/ ~Utf8(s) \/ (\E i \in 1..(eq - 1) : s[i] < 32 \/ s[i] > 125)
     THEN Reject("fmt", "vc", 4 + n) /\ md' = md
     ELSE /\ md' = [md EXCEPT !.left = @ - 4 - n,
                    !.vc.comments = Append(@, [name |-> SubSeq(s, 1, eq - 1),
                                               value |-> SubSeq(s, eq + 1, n)])]
          /\ Consume(4 + n) /\ pc' = pc

\* A block is complete: file it, and decide whether to read another.
Desired(only, want) == ~only \/ want
MetaEnd ==
  /\ pc = "mend"
  /\ UNCHANGED <<cid, fr, sf, it>>
  /\ IF md.goal = "block" THEN
       ip' = ip /\ nf' = nf /\ Return([k |-> "meta", blk |-> md.blk]) /\ md' = md
     ELSE IF (md.first # (md.blk.k = "si")) \/ (md.blk.k = "vc" /\ md.hasvc)
          THEN Reject("fmt", "seq", 0) /\ md' = md
     ELSE LET want == md.want /\ md.blk.k # "vc"
              m == [md EXCEPT !.first = FALSE, !.want = want,
                              !.si = IF md.blk.k = "si" THEN md.blk.si ELSE @,
                              !.hasvc = @ \/ md.blk.k = "vc",
                              !.blk = [k |-> "none"]]
          IN /\ md' = m
             /\ IF m.last \/ ~Desired(m.only, m.want)
                THEN /\ ip' = ip /\ nf' = nf
                     /\ Return([k |-> "opened", si |-> m.si, hasvc |-> m.hasvc /\ m.keep,
                                vc |-> IF m.hasvc /\ m.keep THEN m.vc ELSE NoVc])
                ELSE Consume(0) /\ pc' = "mhdr"

---------------------------------------------------------------------------
(* The sample iterator: interleaves the channels of one block after another *)

NoIter == [on |-> FALSE, dead |-> FALSE, need |-> 0, got |-> <<>>, pend |-> <<>>, wide |-> FALSE]

Interleave2(c, nch, bs) ==
  [i \in 1..(nch * bs) |-> c[((i - 1) % nch) + 1][((i - 1) \div nch) + 1]]

\* Serve from the current block; when it is used up decode another frame.
IterServe ==
  /\ pc = "iter"
  /\ UNCHANGED <<cid, ip, nf, fr, sf, md>>
  /\ LET n == MinOf(it.need, Len(it.pend)) IN
     IF it.dead \/ it.need = n THEN
       /\ it' = [it EXCEPT !.got = <<>>, !.need = 0, !.pend = SubSeq(@, n + 1, Len(@))]
       /\ Return([k |-> "samples", got |-> it.got \o SubSeq(it.pend, 1, n),
                  wide |-> it.wide, end |-> IF it.dead THEN None ELSE [k |-> "more"]])
     ELSE
       /\ it' = [it EXCEPT !.got = @ \o SubSeq(it.pend, 1, n), !.need = @ - n, !.pend = <<>>]
       /\ res' = res /\ pc' = "sync"

\* A frame decoded on behalf of the iterator comes back.
IterFeed ==
  /\ pc = "ret" /\ it.on /\ it.need > 0 /\ res.k \in {"block", "none", "err"}
  /\ UNCHANGED <<cid, ip, nf, fr, sf, md>>
  /\ IF res.k = "block" THEN
       /\ it' = [it EXCEPT !.pend = IF res.wide THEN [i \in 1..(res.nch * res.bs) |-> 0]
                                    ELSE Interleave2(res.chans, res.nch, res.bs),
                           !.wide = @ \/ res.wide]
       /\ pc' = "iter" /\ res' = Pending
     ELSE
       /\ it' = [it EXCEPT !.got = <<>>, !.need = 0, !.dead = (res.k = "err")]
       /\ pc' = pc
       /\ res' = [k |-> "samples", got |-> it.got, wide |-> it.wide, end |-> res]

---------------------------------------------------------------------------
(* Calls *)

Idle == pc = "idle"

StartOpen(only, keep) ==
  /\ Idle /\ UNCHANGED <<cid, ip, nf, fr, sf, it>>
  /\ md' = [NoMd EXCEPT !.only = only, !.want = keep, !.keep = keep]
  /\ pc' = "magic" /\ res' = Pending

StartNext ==
  /\ Idle /\ UNCHANGED <<cid, ip, nf, sf, md>>
  /\ fr' = NoFrame /\ it' = NoIter
  /\ pc' = "sync" /\ res' = Pending

StartTake(n, fresh) ==
  /\ Idle /\ UNCHANGED <<cid, ip, nf, sf, md, fr>>
  /\ it' = IF fresh \/ ~it.on THEN [NoIter EXCEPT !.on = TRUE, !.need = n]
           ELSE [it EXCEPT !.need = n]
  /\ pc' = "iter" /\ res' = Pending

StartBlockWithHeader ==
  /\ Idle /\ UNCHANGED <<cid, ip, nf, fr, sf, it>>
  /\ md' = [NoMd EXCEPT !.goal = "block"]
  /\ pc' = "mhdr" /\ res' = Pending

StartBlock(ty, len) ==
  /\ Idle /\ UNCHANGED <<cid, ip, nf, fr, sf, it>>
  /\ md' = [NoMd EXCEPT !.goal = "block", !.ty = ty, !.len = len]
  /\ pc' = "mbody" /\ res' = Pending

\* A single subframe, outside of any frame (a bit reader positioned at it).
StartSub(bps, bs) ==
  /\ Idle /\ UNCHANGED <<cid, ip, nf, sf, md, it>>
  /\ fr' = [NoFrame EXCEPT !.start = -1, !.bs = bs, !.nch = 1, !.bps = bps, !.bp = 8 * ip]
  /\ pc' = "subhdr" /\ res' = Pending

Finish == pc' = "idle" /\ UNCHANGED <<cid, ip, nf, fr, sf, md, it, res>>

CallDone == pc = "ret" /\ ~(it.on /\ it.need > 0)

DecoderInit(c) ==
  /\ cid = c /\ pc = "idle" /\ ip = 0 /\ nf = 0 /\ fr = NoFrame /\ sf = NoSub
  /\ md = NoMd /\ it = NoIter /\ res = Pending

\* Everything the decoder does on its own account within a call.
DecoderStep ==
  \/ FrameSync \/ FrameCodes \/ FrameNumber \/ FrameExt \/ FrameCrc8
  \/ SubHeader \/ SubConstant \/ SubPlain \/ SubQlp \/ ResHeader \/ RicePartition
  \/ Predict \/ SubEnd \/ FrameFooter
  \/ Magic \/ MetaHeader \/ MetaBody \/ VcVendor \/ VcEntry \/ MetaEnd
  \/ IterServe \/ IterFeed
=============================================================================
