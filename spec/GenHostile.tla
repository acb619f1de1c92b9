----------------------------- MODULE GenHostile -----------------------------
(***************************************************************************)
(* Frames that use one invalid or unsupported coding each, and are         *)
(* otherwise as plausible as can be: checksums are right, and what follows  *)
(* the invalid code would decode if the code were not recognised.          *)
(*                                                                         *)
(* A "neutral tail" makes this possible without knowing how a faulty        *)
(* decoder would read on: two bytes that bring the CRC-16 to zero, then     *)
(* zero bytes.  Zero bytes are constant subframes of any number and width,  *)
(* and wherever the decoder stops, the checksum (again zero bytes) matches. *)
(*                                                                         *)
(* The families are enumerated completely; K of them are put in one step.   *)
(***************************************************************************)
EXTENDS Encoder, Json, TLC, IOUtils

CONSTANTS Family,     \* which family of codings
          Stride,     \* emit every Stride-th ...
          Offset      \* ... starting at this one

VARIABLE idx

Zeros(n) == [j \in 1..n |-> 0]
Neutral(x) == x \o Digits(Crc16(x), 2) \o Zeros(30)

\* A header from raw parts with the right CRC-8, and a neutral tail whose first
\* subframe is `first` (one byte).
Framed(h, first) == Neutral(Append(h, Crc8(h)) \o <<first>>)

\* Number field: lead byte and continuation bytes.
H(sync, c1, c2, num, ext) == sync \o <<c1, c2>> \o num \o ext
Sync == <<255, 248>>

SizeExt(c1) == CASE c1 \div 16 = 6 -> <<15>> [] c1 \div 16 = 7 -> <<0, 31>> [] OTHER -> <<>>
RateExt(c1) == CASE c1 % 16 = 12 -> <<44>> [] c1 % 16 \in {13, 14} -> <<17, 92>> [] OTHER -> <<>>
Ext(c1) == SizeExt(c1) \o RateExt(c1)

---------------------------------------------------------------------------
(* Family "codes": every pair of code bytes *)
Codes(n) == LET c1 == n \div 256 c2 == n % 256
            IN [tag |-> "c1=" \o ToString(c1) \o " c2=" \o ToString(c2),
                bytes |-> Framed(H(Sync, c1, c2, <<7>>, Ext(c1)), 0)]
\* Family "code1" / "code2": one byte over a valid other.
Code1(n) == LET c1 == n % 256 c2 == <<8, 24, 168, 140>>[(n \div 256) + 1]
            IN [tag |-> "c1=" \o ToString(c1), bytes |-> Framed(H(Sync, c1, c2, <<7>>, Ext(c1)), 0)]
Code2(n) == LET c2 == n % 256 c1 == <<16, 105, 124, 128>>[(n \div 256) + 1]
            IN [tag |-> "c2=" \o ToString(c2), bytes |-> Framed(H(Sync, c1, c2, <<7>>, Ext(c1)), 0)]

\* Family "badcode": one invalid code with every valid pair of block size and rate codes.
BadCode(n) ==
  LET c1 == ((n % 15) + 1) * 16 + ((n \div 15) % 15)
      w == n \div 225
      c2 == CASE w < 5 -> (11 + w) * 16 + <<8, 2, 12, 4, 10>>[(n % 5) + 1]
              [] w \in 5..6 -> 16 * (n % 11) + (IF w = 5 THEN 6 ELSE 14)
              [] w \in 7..8 -> 16 * (n % 11) + <<8, 2, 12, 4, 10>>[(n % 5) + 1] + 1
              [] w \in 9..10 -> 16 * (n % 11) + <<8, 2, 12, 4, 10>>[(n % 5) + 1]
      s == IF w = 9 THEN <<255, 250>> ELSE IF w = 10 THEN <<255, 251>> ELSE <<255, IF w = 8 THEN 249 ELSE 248>>
  IN [tag |-> "bad c1=" \o ToString(c1) \o " c2=" \o ToString(c2),
      bytes |-> Framed(H(s, c1, c2, <<(n * 7) % 128>>, Ext(c1)), 0)]

\* Family "sync": every value of each of the two sync bytes.
SyncBytes(n) == LET s == IF n < 256 THEN <<n, 248>> ELSE <<255, n - 256>>
                IN [tag |-> "sync=" \o ToString(s), bytes |-> Framed(H(s, 105, 8, <<7>>, <<15>>), 0)]

\* Family "number": every lead byte, with 0..8 continuation bytes of a kind.
NumberLead(n) ==
  LET lead == n % 256
      m == (n \div 256) % 9
      cont == <<128, 191, 165, 144>>[(n \div 2304) + 1]
      s == IF (n \div 2304) % 2 = 0 THEN <<255, 248>> ELSE <<255, 249>>
  IN [tag |-> "lead=" \o ToString(lead) \o " cont=" \o ToString(m),
      bytes |-> Framed(H(s, 105, 8, <<lead>> \o [j \in 1..m |-> cont], <<15>>), 0)]

\* Family "cont": a continuation byte with every value, at every place of a
\* number of every length.
NumberCont(n) ==
  LET v == n % 256
      place == ((n \div 256) % 6) + 1
      len == ((n \div 1536) % 6) + 1        \* continuation bytes
      lead == 256 - Pow2(7 - len)
      at == IF place <= len THEN place ELSE len
  IN [tag |-> "cont=" \o ToString(v) \o " place=" \o ToString(at) \o " of=" \o ToString(len),
      bytes |-> Framed(H(<<255, 249>>, 105, 8, <<lead>> \o [j \in 1..len |-> IF j = at THEN v ELSE 129], <<15>>), 0)]

\* Family "value": numbers around every power of two, coded in every number of
\* bytes that holds them, as frame and as sample number.
Bit(k, shape, i) == CASE shape = 0 -> i = k [] shape = 1 -> i < k [] shape = 2 -> i = k \/ i = 0
                      [] shape = 3 -> i <= k /\ (k - i) % 3 # 1 [] OTHER -> FALSE
Field(k, shape, from, n) ==      \* the n bits from bit position `from` up
  FoldLeft(LAMBDA acc, j : 2 * acc + (IF Bit(k, shape, from + n - j) THEN 1 ELSE 0), 0, Iota(n))
NumberValue(n) ==
  LET k == n % 37
      shape == (n \div 37) % 4
      more == (n \div 148) % 7             \* continuation bytes
      lead == IF more = 0 THEN Field(k, shape, 0, 7)
              ELSE 256 - Pow2(7 - more) + (IF more = 6 THEN 0 ELSE Field(k, shape, 6 * more, 6 - more))
      s == IF n \div 1036 = 0 THEN <<255, 248>> ELSE <<255, 249>>
  IN [tag |-> "number 2^" \o ToString(k) \o " shape=" \o ToString(shape) \o " more=" \o ToString(more),
      bytes |-> Framed(H(s, 105, 8, <<lead>> \o [j \in 1..more |-> 128 + Field(k, shape, 6 * (more - j), 6)], <<15>>), 0)]

\* Family "size": the two-byte and one-byte block size at and around its limits.
SizeCases(n) ==
  LET x == <<0, 1, 2, 14, 15, 16, 254, 255, 256, 257, 4095, 32766, 32767, 32768, 65279, 65280,
             65533, 65534, 65535>>[(n % 19) + 1]
      sr == n \div 19
      c1 == 112 + sr
      ext == CASE sr = 12 -> <<x % 251>> [] sr \in 13..14 -> <<x % 251, sr>> [] OTHER -> <<>>
      cha == IF sr = 0 THEN 0 ELSE (n * 3) % 11
  IN [tag |-> "size=" \o ToString(x) \o " rate code=" \o ToString(sr), bytes |-> Framed(H(Sync, c1, cha * 16 + 8, <<7>>, Digits(x, 2) \o ext), IF sr > 0 /\ x > 300 /\ x < 65535 THEN 2 ELSE 0)]

\* Family "subtype": every first byte of a subframe, in a valid mono frame.
SubType(n) == LET bs == <<15, 0, 3, 7>>[(n \div 256) + 1]
              IN [tag |-> "sub=" \o ToString(n % 256) \o " bs=" \o ToString(bs + 1),
                  bytes |-> Framed(H(Sync, 96, 8, <<7>>, <<bs>>), n % 256)]

---------------------------------------------------------------------------
(* Families of subframes with bodies written bit by bit.                    *)

\* A complete mono frame around the bits of a writer; b: bits per sample code.
\* The checksum is right where the writer ends, and again after more zeros.
Mono(bsm1, bpc, w) ==
  LET h == H(Sync, 96, bpc * 2, <<7>>, <<bsm1>>)
      x == Append(h, Crc8(h)) \o Aligned(w)
  IN Neutral(x)
Stereo(cha, bsm1, bpc, w) ==
  LET h == H(Sync, 96, cha * 16 + bpc * 2, <<7>>, <<bsm1>>)
      x == Append(h, Crc8(h)) \o Aligned(w)
  IN Neutral(x)

SubHead(ty) == PutU(W0, ty * 2, 8)
\* Appends <<value, width>> fields.
Put(w, fields) == FoldLeft(LAMBDA acc, f : PutU(acc, f[1], f[2]), w, fields)
Rep(x, n) == [j \in 1..n |-> x]

\* Family "wasted": the wasted-bits count over its whole range and beyond, for
\* every sample width; constant and verbatim subframes.
WastedCases(n) ==
  LET k == (n % 40) + 1                          \* stored count
      bpc == <<1, 2, 4, 5, 6>>[((n \div 40) % 5) + 1]
      bits == <<8, 12, 16, 20, 24>>[((n \div 40) % 5) + 1]
      verb == n \div 200
      w == PutUnary(PutU(W0, verb * 2 + 1, 8), k - 1)
      rest == MaxOf(0, bits - k)
      body == IF verb = 1 THEN Put(w, Rep(<<1 % Pow2(rest), rest>>, 4)) ELSE Put(w, <<<<Pow2(rest) \div 2, rest>>>>)
  IN [tag |-> "wasted=" \o ToString(k) \o " bps=" \o ToString(bits), bytes |-> Mono(3, bpc, body)]

\* Family "rice": residual coding method x parameter, with enough residuals.
RiceCases(n) ==
  LET method == n \div 32
      p == n % 32
      width == IF method % 2 = 0 THEN 4 ELSE 5
      par == p % Pow2(width)
      one == <<<<1, 1>>, <<3 % Pow2(MinOf(par, 30)), MinOf(par, 30)>>>>
      \* a parameter of 31 has 31 low bits
      item == IF par = 31 THEN one \o <<<<0, 1>>>> ELSE one
      w == Put(SubHead(8), <<<<method, 2>>, <<0, 4>>, <<par, width>>>> \o item \o item)
  IN [tag |-> "method=" \o ToString(method) \o " par=" \o ToString(par), bytes |-> Mono(1, 4, w)]

\* Family "escape": the escape code followed by a proper escaped partition.
EscapeCases(n) ==
  LET method == n % 2
      raw == n \div 2
      w == Put(SubHead(8), <<<<method, 2>>, <<0, 4>>, <<IF method = 0 THEN 15 ELSE 31, 4 + method>>, <<raw, 5>>,
                            <<0, MinOf(raw, 30)>>, <<0, MinOf(raw, 30)>>>>)
  IN [tag |-> "escape raw=" \o ToString(raw), bytes |-> Mono(1, 4, w)]

\* Family "porder": partition order x predictor order x block size.
POrderCases(n) ==
  LET po == n % 16
      order == (n \div 16) % 5
      bs == <<1, 2, 3, 4, 5, 6, 7, 8, 12, 15, 16, 17, 24, 32, 48, 64>>[((n \div 80) % 16) + 1]
      plen == bs \div Pow2(po)
      \* as many partitions as an unsuspecting decoder would read, if few
      np == IF po <= 6 THEN Pow2(po) ELSE 64
      part(j) == <<<<0, 4>>>> \o Rep(<<1, 1>>, MaxOf(0, plen - (IF j = 1 THEN order ELSE 0)))
      w == Put(SubHead(8 + order), Rep(<<0, 8>>, order) \o <<<<0, 2>>, <<po, 4>>>>
                                   \o FlattenSeq([j \in 1..np |-> part(j)]))
  IN [tag |-> "porder=" \o ToString(po) \o " order=" \o ToString(order) \o " bs=" \o ToString(bs),
      bytes |-> Mono(bs - 1, 1, w)]

\* Family "lpc": order x block size, precision and shift codes.
LpcCases(n) ==
  LET prec == n % 16                           \* precision code
      shift == (n \div 16) % 32                \* shift code
      k == n \div 512
      order == <<1, 2, 12, 32>>[(k % 4) + 1]
      bs == IF (k \div 4) % 2 = 0 THEN 33 ELSE MaxOf(1, order - 1)
      w == Put(SubHead(31 + order),
               Rep(<<0, 16>>, order) \o <<<<prec, 4>>, <<shift, 5>>>> \o Rep(<<1, prec + 1>>, order)
               \o <<<<0, 2>>, <<0, 4>>, <<0, 4>>>> \o Rep(<<1, 1>>, MaxOf(0, bs - order)))
  IN [tag |-> "prec=" \o ToString(prec) \o " shift=" \o ToString(shift) \o " order=" \o ToString(order)
              \o " bs=" \o ToString(bs),
      bytes |-> Mono(bs - 1, 4, w)]

\* Family "order": every predictor order at block sizes around it.
OrderCases(n) ==
  LET t == n % 37                              \* 0..4 fixed, 5..36 lpc 1..32
      order == IF t < 5 THEN t ELSE t - 4
      bs == MaxOf(1, order - 1 + n \div 37)
      w == Put(SubHead(IF t < 5 THEN 8 + t ELSE 31 + order),
               Rep(<<0, 8>>, order)
               \o (IF t < 5 THEN <<>> ELSE <<<<0, 4>>, <<0, 5>>>> \o Rep(<<0, 1>>, order))
               \o <<<<0, 2>>, <<0, 4>>, <<0, 4>>>> \o Rep(<<1, 1>>, MaxOf(0, bs - order)))
  IN [tag |-> "order=" \o ToString(order) \o " bs=" \o ToString(bs), bytes |-> Mono(bs - 1, 1, w)]

\* Family "second": the same invalid codes in the second subframe of a stereo
\* frame of every channel mode.
SecondCases(n) ==
  LET b == n % 256
      cha == <<1, 8, 9, 10>>[n \div 256 + 1]
      first == Put(W0, <<<<0, 8>>, <<5, IF cha = 9 THEN 17 ELSE 16>>>>)
  IN [tag |-> "second=" \o ToString(b) \o " cha=" \o ToString(cha),
      bytes |-> Stereo(cha, 15, 4, Put(first, <<<<b, 8>>>>))]

\* Family "wide": residuals and predictions that fill, and leave, 32 bits, in
\* one or two channels, with decorrelation and wasted bits on top.
Huge(pat, j) ==                    \* quotient and low 30 bits of a residual
  CASE pat = 0 -> <<RandomElement(0..3), RandomElement(0..(Pow2(30) - 1))>>
    [] pat = 1 -> <<3, Pow2(30) - 2>>             \* the largest number
    [] pat = 2 -> <<3, Pow2(30) - 1>>             \* the smallest
    [] pat = 3 -> <<3, Pow2(30) - 1 - (j % 2)>>
    [] pat = 4 -> <<2, 0>>
    [] pat = 5 -> <<7, Pow2(30) - 1>>             \* more than 32 bits before folding
WideSub(w, bps, bs, wasted, kind, pat) ==
  LET order == <<0, 1, 2, 3, 4, 1, 2, 12, 13, 32>>[kind + 1]
      ty == IF kind < 5 THEN 8 + order ELSE 31 + order
      n == bps - wasted
      hd == IF wasted = 0 THEN <<<<ty * 2, 8>>>> ELSE <<<<ty * 2 + 1, 8>>, <<1, wasted>>>>
      warm(j) == <<IF (j + pat) % 2 = 0 THEN Pow2(n - 1) ELSE Pow2(n - 1) - 1, n>>
      lpc == IF kind < 5 THEN <<>>
             ELSE <<<<14, 4>>, <<IF pat = 4 THEN 15 ELSE 0, 5>>>>
                  \o [j \in 1..order |-> <<IF (j + pat) % 3 = 0 THEN Pow2(14) ELSE Pow2(14) - 1, 15>>]
      item(j) == LET h == Huge(pat, j) IN <<<<1, h[1] + 1>>, <<h[2], 30>>>>
  IN Put(w, hd \o [j \in 1..order |-> warm(j)] \o lpc \o <<<<1, 2>>, <<0, 4>>, <<30, 5>>>>
            \o FlattenSeq([j \in 1..(bs - order) |-> item(j)]))
WideCases(n) ==
  LET pat == n % 6
      kind == (n \div 6) % 10
      cha == <<0, 1, 8, 9, 10>>[((n \div 60) % 5) + 1]
      wasted == <<0, 1, 20>>[((n \div 300) % 3) + 1]
      bs == IF kind = 9 THEN 36 ELSE IF kind > 6 THEN 16 ELSE 6
      one == WideSub(W0, IF cha = 9 THEN 25 ELSE 24, bs, wasted, kind, pat)
      two == WideSub(one, IF cha \in {8, 10} THEN 25 ELSE 24, bs, wasted, kind, (pat + n \div 900) % 6)
  IN [tag |-> "wide kind=" \o ToString(kind) \o " pattern=" \o ToString(pat) \o " cha=" \o ToString(cha),
      bytes |-> IF cha = 0 THEN Mono(bs - 1, 6, one) ELSE Stereo(cha, bs - 1, 6, two)]

(* Family "cross": one invalid coding (or none) amid random valid choices of  *)
(* everything else: block size and how it is coded, rate, channels, width,    *)
(* number, the subframes before, the predictor.                               *)
Some(q) == q[RandomElement(1..Len(q))]
Ones(n) == Rep(<<1048575, 20>>, n \div 20) \o <<<<Pow2(n % 20) - 1, n % 20>>>>
CrossSub(bad, bs, width) ==
  LET fixed == RandomElement(0..4)
      lpc == Some(<<1, 2, 3, 8, 12, 31, 32>>)
      order == IF bad \notin {"prec", "shift"} /\ RandomElement(1..2) = 1 THEN fixed ELSE lpc
      ty == IF bad \notin {"prec", "shift"} /\ order <= 4 /\ order = fixed THEN 8 + fixed ELSE 31 + order
      method == RandomElement(0..1)
      warm(k) == Rep(<<Some(<<0, 1, Pow2(width - 1)>>), width>>, k)
      \* a predictor of an order the block has room for
      o == IF bad = "order" THEN order ELSE MinOf(order, IF ty < 32 THEN MinOf(4, bs) ELSE bs)
      t == IF ty < 32 THEN 8 + o ELSE IF o = 0 THEN 8 ELSE 31 + o
      prec == IF bad = "prec" THEN 15 ELSE RandomElement(0..14)
      shift == IF bad = "shift" THEN RandomElement(16..31) ELSE RandomElement(0..15)
      coefs == IF t < 32 THEN <<>> ELSE <<<<prec, 4>>, <<shift, 5>>>> \o Rep(<<0, prec + 1>>, o)
      m == IF bad = "method" THEN RandomElement(2..3) ELSE method
      tooMany == {p \in 1..15 : (bs % Pow2(p) # 0) \/ (bs \div Pow2(p) < o)}
      po == IF bad = "porder" THEN RandomElement(tooMany \cup (IF tooMany = {} THEN {0} ELSE {})) ELSE 0
      par == IF bad = "escape" THEN (IF m = 0 THEN 15 ELSE 31) ELSE RandomElement(0..(IF m = 0 THEN 14 ELSE 5))
      head == <<<<t * 2, 8>>>> \o warm(o) \o coefs
      \* zeros: a one bit and then the low bits
      zeros == IF par = 0 THEN Ones(MaxOf(0, bs - o)) ELSE Rep(<<Pow2(MinOf(par, 20)), MinOf(par, 20) + 1>>, MaxOf(0, MinOf(bs, 600) - o))
  IN CASE bad = "type" -> <<<<2 * RandomElement((2..7) \cup (13..31)) + RandomElement(0..1), 8>>>>
       [] bad = "lead" -> <<<<128 + t * 2, 8>>>> \o warm(o) \o coefs \o <<<<0, 6>>, <<0, 4>>>> \o Ones(MaxOf(0, bs - o))
       [] bad = "wasted" -> LET k == RandomElement(width..(width + 3)) IN
                            <<<<2 * Some(<<0, 1, 8, 9, 32>>) + 1, 8>>>> \o Rep(<<0, 1>>, k - 1) \o <<<<1, 1>>>>
       [] OTHER -> head \o <<<<m, 2>>, <<po, 4>>, <<par, IF m % 2 = 0 THEN 4 ELSE 5>>>> \o zeros
CrossBad == <<"none", "type", "lead", "wasted", "method", "method", "escape", "porder", "prec", "shift", "order",
              "sync", "c1", "rate", "cha", "bps", "c2", "number", "number2">>
CrossCases(n) ==
  LET bad == CrossBad[(n % Len(CrossBad)) + 1]
      bsc == IF bad = "c1" THEN 0 ELSE IF bad = "order" THEN RandomElement(6..7) ELSE Some(<<1, 1, 2, 6, 6, 6, 6, 7, 7, 7, 8, 8, 9>>)
      small == IF bad = "order" THEN RandomElement(0..29) ELSE Some(<<0, 1, 7, 15, 16, 31, 32, 63, 95, 127, 143, 191, 192, 255>>)
      big == IF bad = "order" THEN RandomElement(0..29) ELSE Some(<<15, 16, 191, 192, 256, 287, 383, 431, 511, 575>>)
      bs == CASE bsc = 0 -> 16 [] bsc = 1 -> 192 [] bsc = 2 -> 576 [] bsc = 6 -> small + 1 [] bsc = 7 -> big + 1
              [] bsc = 8 -> 256 [] bsc = 9 -> 512
      rate == IF bad = "rate" THEN 15 ELSE RandomElement(0..14)
      cha == IF bad = "cha" THEN RandomElement(11..15) ELSE Some(<<0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10>>)
      bpc == IF bad = "bps" THEN RandomElement({3, 7}) ELSE Some(<<1, 2, 4, 5, 6>>)
      bits == <<8, 12, 8, 16, 20, 24, 8>>[bpc]
      more == RandomElement(0..6)
      lead == CASE bad = "number" -> RandomElement((128..191) \cup {255})
                [] more = 0 -> RandomElement(0..127)
                [] OTHER -> 256 - Pow2(7 - more) + (IF more = 6 THEN 0 ELSE RandomElement(0..(Pow2(6 - more) - 1)))
      odd == RandomElement(1..more)
      num == <<lead>> \o TLCEval([j \in 1..more |-> IF bad = "number2" /\ j = odd
                                                   THEN RandomElement((0..127) \cup (192..255)) ELSE RandomElement(128..191)])
      sync == IF bad = "sync" THEN <<255, RandomElement({250, 251, 240, 244, 252, 120})>> ELSE <<255, RandomElement(248..249)>>
      ext == (CASE bsc = 6 -> <<small>> [] bsc = 7 -> Digits(big, 2) [] OTHER -> <<>>)
             \o (CASE rate = 12 -> <<RandomElement(0..255)>> [] rate \in {13, 14} -> <<RandomElement(0..255), 17>> [] OTHER -> <<>>)
      h == H(sync, bsc * 16 + rate, cha * 16 + bpc * 2 + (IF bad = "c2" THEN 1 ELSE 0), num, ext)
      nch == IF cha < 8 THEN cha + 1 ELSE 2
      which == RandomElement(1..nch)
      width(c) == bits + (IF (cha \in {8, 10} /\ c = 2) \/ (cha = 9 /\ c = 1) THEN 1 ELSE 0)
      before == FlattenSeq([c \in 1..(which - 1) |-> <<<<0, 8>>, <<RandomElement(0..255), width(c)>>>>])
      w == Put(W0, before \o CrossSub(bad, bs, width(which)))
  IN [tag |-> "cross " \o bad \o " bs=" \o ToString(bs) \o " cha=" \o ToString(cha) \o " bpc=" \o ToString(bpc),
      bytes |-> Neutral(Append(h, Crc8(h)) \o Aligned(w)) \o Zeros(16)]

---------------------------------------------------------------------------
Size == CASE Family = "codes" -> 65536
          [] Family \in {"code1", "code2"} -> 1024
          [] Family = "sync" -> 512
          [] Family = "number" -> 9216
          [] Family = "cont" -> 9216
          [] Family = "value" -> 2072
          [] Family = "size" -> 285
          [] Family = "badcode" -> 2475
          [] Family = "subtype" -> 1024
          [] Family = "wasted" -> 400
          [] Family = "rice" -> 128
          [] Family = "escape" -> 64
          [] Family = "porder" -> 1280
          [] Family = "lpc" -> 4096
          [] Family = "order" -> 148
          [] Family = "second" -> 1024
          [] Family = "wide" -> 5400
          [] Family = "cross" -> 38000

Make(n) == CASE Family = "codes" -> Codes(n)
             [] Family = "code1" -> Code1(n)
             [] Family = "code2" -> Code2(n)
             [] Family = "sync" -> SyncBytes(n)
             [] Family = "number" -> NumberLead(n)
             [] Family = "cont" -> NumberCont(n)
             [] Family = "value" -> NumberValue(n)
             [] Family = "size" -> SizeCases(n)
             [] Family = "badcode" -> BadCode(n)
             [] Family = "subtype" -> SubType(n)
             [] Family = "wasted" -> WastedCases(n)
             [] Family = "rice" -> RiceCases(n)
             [] Family = "escape" -> EscapeCases(n)
             [] Family = "porder" -> POrderCases(n)
             [] Family = "lpc" -> LpcCases(n)
             [] Family = "order" -> OrderCases(n)
             [] Family = "second" -> SecondCases(n)
             [] Family = "wide" -> WideCases(n)
             [] Family = "cross" -> CrossCases(n)

Init == idx = Offset % Stride
Next == /\ idx < Size
        /\ PrintT("CASE " \o ToJson([n |-> idx] @@ Make(idx)))
        /\ idx' = idx + Stride
Spec == Init /\ [][Next]_idx
=============================================================================
