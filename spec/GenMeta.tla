------------------------------ MODULE GenMeta ------------------------------
(***************************************************************************)
(* Metadata sections: well-formed and malformed stream info and Vorbis     *)
(* comment blocks, and sequences of blocks of all types.                   *)
(* Enumerated families are complete; random ones use TLC's -seed.          *)
(* Printed: the blocks (type, claimed length, body) in order; the caller    *)
(* of the generator decides how they are read.                             *)
(***************************************************************************)
EXTENDS Encoder, Json, IOUtils

CONSTANTS Family, Stride, Offset, Count

VARIABLE idx

R(S) == RandomElement(S)
Vec(k, S) == TLCEval([j \in 1..k |-> R(S)])
Pick(q) == q[R(1..Len(q))]
At(q, n) == q[(n % Len(q)) + 1]

Blk(ty, body) == [ty |-> ty, len |-> Len(body), body |-> body]
Claim(ty, len, body) == [ty |-> ty, len |-> len, body |-> body]

Zero5 == <<0, 0, 0, 0, 0>>
Rep(v, k) == [j \in 1..k |-> v]
Md5 == <<1, 35, 69, 103, 137, 171, 205, 239, 254, 220, 186, 152, 118, 84, 50, 16>>
GoodSi == Blk(0, StreamInfoBytes(16, 4096, 0, 0, 44100, 2, 16, Zero5, Md5))

---------------------------------------------------------------------------
(* Stream info *)

\* Boundary values of every field, one at a time and two at a time.
B16 == <<0, 1, 15, 16, 17, 255, 256, 4096, 32767, 32768, 65534, 65535>>
B24 == <<0, 1, 2, 255, 256, 65535, 65536, 8388607, 8388608, 16777214, 16777215>>
B20 == <<0, 1, 2, 15, 16, 4095, 65535, 65536, 524287, 524288, 655349, 655350, 655351, 655360, 1048575>>
BSamples == <<Zero5, <<0, 0, 0, 0, 1>>, <<0, 255, 255, 255, 255>>, <<1, 0, 0, 0, 0>>, <<8, 0, 0, 0, 0>>,
              <<15, 255, 255, 255, 255>>, <<0, 128, 0, 0, 0>>, <<0, 0, 0, 1, 0>>, <<9, 8, 7, 6, 5>>>>

Si(minbs, maxbs, minfs, maxfs, rate, ch, bps, samples, md5) ==
  [tag |-> "si " \o ToString(<<minbs, maxbs, minfs, maxfs, rate, ch, bps, samples>>),
   blocks |-> <<Blk(0, StreamInfoBytes(minbs, maxbs, minfs, maxfs, rate, ch, bps, samples, md5))>>]

\* (min, max) block sizes; (min, max) frame sizes; rates; channels and widths; samples
SiEnum(n) ==
  LET a == Len(B16) * Len(B16)
      b == a + Len(B24) * Len(B24)
      c == b + Len(B20)
      d == c + 8 * 32
      e == d + Len(BSamples)
      g == e + 5 * 16
  IN CASE n < a -> Si(At(B16, n), At(B16, n \div Len(B16)), 14, 9000, 44100, 2, 16, <<0, 0, 1, 2, 3>>, Md5)
       [] n >= a /\ n < b -> LET m == n - a IN
            Si(16, 16, At(B24, m), At(B24, m \div Len(B24)), 96000, 1, 24, <<1, 2, 3, 4, 5>>, Md5)
       [] n >= b /\ n < c -> Si(17, 65535, 0, 1, At(B20, n - b), 8, 32, <<0, 0, 0, 0, 9>>, Md5)
       [] n >= c /\ n < d -> LET m == n - c IN
            Si(4608, 4608, 1, 0, 8000, (m % 8) + 1, (m \div 8) + 1, <<(m % 16), 1, 2, 3, 4>>, [j \in 1..16 |-> (m + j) % 256])
       [] n >= d /\ n < e -> Si(4608, 4609, 1, 1, 8000, 3, 20, At(BSamples, n - d), Md5)
       [] n >= e /\ n < g -> LET m == n - e  p == (m % 16) + 1 IN      \* checksums with zeros and ones
            Si(4608, 4609, 1, 1, 8000, 3, 20, BSamples[3],
               [j \in 1..16 |-> CASE m \div 16 = 0 -> IF j = p THEN 1 ELSE 0
                                  [] m \div 16 = 1 -> IF j < p THEN 0 ELSE 16 * j - p
                                  [] m \div 16 = 2 -> IF j > p THEN 0 ELSE 16 * j - p
                                  [] m \div 16 = 3 -> IF j = p THEN 127 ELSE 255
                                  [] m \div 16 = 4 -> IF p = 16 THEN 0 ELSE IF j = p THEN 128 ELSE IF j = 16 THEN 1 ELSE 0])
SiEnumSize == Len(B16) * Len(B16) + Len(B24) * Len(B24) + Len(B20) + 256 + Len(BSamples) + 80

\* Every field random; half of them valid.
SiRandom(n) ==
  LET lo == R(16..65535) IN
  IF n % 2 = 0
  THEN LET f == R(0..16777215) IN
       Si(lo, R(lo..65535), R(0..f), Pick(<<f, 0, 16777215>>), R(1..655350), R(1..8), R(1..32),
          <<R(0..15)>> \o Vec(4, 0..255), Vec(16, 0..255))
  ELSE [tag |-> "si random", blocks |-> <<Blk(0, Vec(34, 0..255))>>]

\* Wrong block lengths, with and without enough bytes.
SiLens == <<0, 1, 18, 33, 35, 36, 38, 68, 34, 34 + 128, 34 + 256, 34 + 512, 34 + 4096, 34 + 32768, 34 + 65536, 34 + 131072, 34 + 1048576, 34 + 8388608,
            16777215, 2, 32, 50>>
SiLen(n) ==
  LET len == At(SiLens, n)
      body == SubSeq(GoodSi.body \o GoodSi.body, 1, MinOf(len, 68))
  IN [tag |-> "si len " \o ToString(len), blocks |-> <<Claim(0, len, body)>>]

---------------------------------------------------------------------------
(* Vorbis comments *)

Ascii == (32..125) \ {61}
Chars == <<          \* UTF-8 encodings, all lengths, with the boundaries
  <<65>>, <<97>>, <<0>>, <<127>>, <<61>>, <<32>>, <<126>>, <<10>>,
  <<194, 128>>, <<195, 169>>, <<223, 191>>,
  <<224, 160, 128>>, <<226, 132, 170>>, <<237, 159, 191>>, <<238, 128, 128>>, <<239, 191, 191>>, <<239, 187, 191>>,
  <<240, 144, 128, 128>>, <<240, 159, 142, 181>>, <<243, 160, 129, 136>>, <<244, 143, 191, 191>> >>
BadChars == <<
  <<128>>, <<191>>, <<192, 128>>, <<193, 191>>, <<194>>, <<194, 65>>, <<194, 192>>, <<223, 127>>,
  <<224, 159, 191>>, <<224, 160>>, <<224, 160, 65>>, <<226, 130>>, <<237, 160, 128>>, <<237, 191, 191>>,
  <<239, 191>>, <<240, 143, 191, 191>>, <<240, 144, 128>>, <<240, 144, 128, 65>>, <<244, 144, 128, 128>>,
  <<245, 128, 128, 128>>, <<247, 191, 191, 191>>, <<248, 136, 128, 128, 128>>, <<254>>, <<255>>,
  <<195, 169, 169>> >>

Text(k) == FlattenSeq(TLCEval([j \in 1..k |-> Pick(Chars)]))
Plain(k) == Vec(k, 32..126)

Upper(x) == IF x \in 97..122 THEN x - 32 ELSE x
LowerX(x) == IF x \in 65..90 THEN x + 32 ELSE x
SwapCase(s) == TLCEval([j \in 1..Len(s) |-> IF R(1..2) = 1 THEN Upper(s[j]) ELSE LowerX(s[j])])
\* Bit 5 flipped everywhere: equal only to a sloppy comparison.
Flip5(s) == [j \in 1..Len(s) |-> LET x == IF (s[j] \div 32) % 2 = 1 THEN s[j] - 32 ELSE s[j] + 32
                                 IN IF x \in Ascii THEN x ELSE s[j]]

Names == << <<84, 73, 84, 76, 69>>, <<65, 82, 84, 73, 83, 84>>, <<>>, <<107>>, <<115, 84>>,
            <<64, 91, 93, 94, 95>>, <<96, 123, 125, 126 - 2, 63>>, <<90, 122>>, <<32>>, <<125>>, <<65, 49, 46>> >>

Entry(name, value) == name \o <<61>> \o value

\* A random well-formed block.
VcRandom(n) ==
  LET k == At(<<0, 1, 2, 3, 5, 9>>, n)
      base == Pick(Names)
      name(j) == IF R(1..3) = 1 THEN SwapCase(base)
                 ELSE IF R(1..4) = 1 THEN Flip5(base)
                 ELSE IF R(1..2) = 1 THEN Pick(Names) ELSE Vec(R(1..12), Ascii)
      names == TLCEval([j \in 1..k |-> name(j)])
      item(j) == IF R(1..8) = 1 THEN <<>>
                 ELSE Entry(names[j], IF R(1..2) = 1 THEN Text(R(0..6)) ELSE Plain(R(0..20)))
      items == TLCEval([j \in 1..k |-> item(j)])
      vendor == IF R(1..2) = 1 THEN Text(R(0..8)) ELSE Plain(R(0..40))
      extra == << <<226, 132, 170>>, <<197, 191, 116>>, <<195, 169>>, <<>>, base, SwapCase(base), Flip5(base),
                  Append(base, 61), <<61>>, <<61>> \o base, base \o <<61, 49>>, Append(base, 32), Append(base, 0)>>
  IN [tag |-> "vc " \o ToString(k), blocks |-> <<Blk(4, CommentBytes(vendor, items))>>,
      needles |-> extra \o [j \in 1..k |-> SwapCase(names[j])]]

\* Every byte as the (second) byte of a name, in a value and in the vendor string.
VcBytes(n) ==
  LET x == n % 256 w == n \div 256
      vendor == IF w = 2 THEN <<118, x, 46>> ELSE <<118>>
      entry == CASE w = 0 -> <<65, x, 66, 61, 118>> [] w = 1 -> <<65, 61, x, 118>> [] w = 2 -> <<65, 61, 49>>
                 [] w = 3 -> <<x, 61>> [] w = 4 -> <<65, 61, x>>
  IN [tag |-> "byte " \o ToString(x) \o " at " \o ToString(w),
      blocks |-> <<Blk(4, CommentBytes(vendor, <<entry, <<66, 61, 50>>>>))>>,
      needles |-> << <<97>>, <<66>>, <<65, IF x < 128 THEN x ELSE 65, 66>> >>]

\* Names of all lengths that differ in one place, in case, or in length.
NameLens == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 15, 16, 17, 18, 19, 20, 21, 23, 24, 25, 31, 32, 33, 40, 47, 48, 49, 63, 64, 65, 66,
              100, 127, 128, 129, 200, 255, 256, 257, 300>>
VcNames(n) ==
  LET len == At(NameLens, n)
      mix == n \div Len(NameLens)
      letter(j) == CASE mix = 0 -> 97 + ((j * 7 + n) % 26)
                     [] mix = 1 -> IF j % 3 = 0 THEN 64 + ((j * 5) % 30) ELSE 65 + ((j * 3 + n) % 26)
                     [] mix = 2 -> IF j % 2 = 0 THEN 48 + (j % 10) ELSE 97 + (j % 26)
      base == LET s == [j \in 1..len |-> letter(j)] IN [j \in 1..len |-> IF s[j] = 61 THEN 62 ELSE s[j]]
      diff(p, by) == [base EXCEPT ![p] = IF @ + by \in Ascii THEN @ + by ELSE @ - by]
      names == << base, [j \in 1..len |-> Upper(base[j])], diff(1, 1), diff((len + 1) \div 2, 1), diff(len, 1),
                  SubSeq(base, 1, len - 1), Append(base, 120), SubSeq(base, 2, len), <<120>> \o base, base, Flip5(base),
                  [j \in 1..len |-> IF j % 2 = 0 THEN Upper(base[j]) ELSE LowerX(base[j])], diff(len, 2), diff(MinOf(len, 16), 3) >>
  IN [tag |-> "names " \o ToString(<<len, mix>>),
      blocks |-> <<Blk(4, CommentBytes(<<118>>, [i \in 1..Len(names) |-> Entry(names[i], <<48 + i \div 10, 48 + (i % 10)>>)]))>>,
      needles |-> << [j \in 1..len |-> LowerX(base[j])], names[2], diff(1, 1), SwapCase(diff((len + 1) \div 2, 1)), diff(len, 1),
                     SubSeq(base, 1, len - 1), SwapCase(Append(base, 120)), SubSeq(base, 1, MinOf(len, 15)), SubSeq(base, 1, MinOf(len, 16)),
                     SubSeq(base, 2, len), Flip5(base) >>]
VcNamesSize == 3 * Len(NameLens)

\* A byte that may not be in a name, or just may, at one place of a name of any length.
EdgeBytes == <<0, 31, 32, 125, 126, 127, 128, 195, 255, 60, 62>>
VcPlace(n) ==
  LET len == At(NameLens, n)
      where == (n \div Len(NameLens)) % 6
      x == At(EdgeBytes, n \div (6 * Len(NameLens)))
      at == CASE where = 0 -> 1 [] where = 1 -> MinOf(2, len) [] where = 2 -> (len + 1) \div 2
              [] where = 3 -> MaxOf(1, len - 1) [] where = 4 -> len [] where = 5 -> MaxOf(1, (3 * len) \div 4)
      name == [j \in 1..len |-> IF j = at THEN x ELSE 97 + ((j * 5 + n) % 26)]
      ask == [j \in 1..len |-> IF j = at /\ x >= 128 THEN 65 ELSE Upper(name[j])]
      w == n % 3
  IN [tag |-> "place " \o ToString(<<len, at, x>>),
      blocks |-> <<Blk(4, CommentBytes(<<118>>, Rep(<<65, 61, 49>>, w) \o <<Entry(name, <<50>>)>> \o Rep(<<66, 61, 51>>, 2 - w)))>>,
      needles |-> << ask, SubSeq(ask, 1, len - 1), <<97>> >>]
VcPlaceSize == 6 * Len(NameLens) * Len(EdgeBytes)

\* Long texts, right and wrong: a wrong character at the start, amid, at the
\* end, or none; in the vendor string, the first or the last value.
LongLens == <<60, 127, 128, 129, 199, 200, 201, 255, 256, 257, 511, 513, 1000, 1023, 1025, 2047, 2048, 2049, 2100, 3001, 4096>>
VcLong(n) ==
  LET len == At(LongLens, n)
      where == (n \div Len(LongLens)) % 4
      which == (n \div (4 * Len(LongLens))) % 3
      bad == IF where = 3 THEN Pick(Chars) ELSE Pick(BadChars)
      at == CASE where = 0 -> 0 [] where = 1 -> len \div 2 + (n % 3) - 1 [] where = 2 -> len [] where = 3 -> len - (n % 5)
      dense == (n + n \div Len(LongLens)) % 3
      half(k, o) == IF dense = 0 THEN [j \in 1..k |-> 32 + ((j * 11 + o) % 95)]
                    ELSE FlattenSeq([j \in 1..(k \div 4) |-> IF (j + o) % (IF dense = 1 THEN 2 ELSE 17) = 0 THEN <<240, 159, 142, 181>>
                                                               ELSE <<65, 195, 169, 66>>])
                         \o [j \in 1..(k % 4) |-> 97 + j]
      text == half(at, 1) \o bad \o half(len - at, 2)
      short == <<65, 61, 49>>
      items == << IF which = 1 THEN <<66, 61>> \o text ELSE short, short, IF which = 2 THEN <<67, 61>> \o text ELSE <<98, 61, 50>> >>
  IN [tag |-> "long " \o ToString(<<len, where, which, dense>>),
      blocks |-> <<Blk(4, CommentBytes(IF which = 0 THEN text ELSE <<118>>, items))>>, needles |-> << <<98>>, <<99>> >>]
VcLongSize == 12 * Len(LongLens)

\* Many comments.
ManyCounts == <<15, 16, 17, 18, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300>>
VcMany(n) ==
  LET k == At(ManyCounts, n)
      mix == n \div Len(ManyCounts)
      item(j) == CASE mix = 0 -> Entry(<<97 + (j % 5)>>, <<48 + (j % 10)>>)
                   [] mix = 1 -> IF j % 3 = 0 THEN <<>> ELSE Entry(<<84, 73 + (j % 2)>>, Plain(R(0..9)))
                   [] mix = 2 -> IF j > k - 3 THEN Entry(<<122>>, <<j % 128>>) ELSE IF R(1..9) = 1 THEN <<>> ELSE Entry(Pick(Names), <<>>)
  IN [tag |-> "many " \o ToString(<<k, mix>>),
      blocks |-> <<Blk(4, CommentBytes(<<118>>, TLCEval([j \in 1..k |-> item(j)])))>>,
      needles |-> << <<65>>, <<98>>, <<116, 105>>, <<84, 74>>, <<90>>, <<>> >>]
VcManySize == 3 * Len(ManyCounts)

\* Bad UTF-8 in value, vendor, or split between name and value; good UTF-8 as control.
VcUtf8(n) ==
  LET all == Chars \o BadChars
      c == At(all, n) w == (n \div Len(all)) % 8
      vendor == CASE w = 1 -> <<118>> \o c [] w = 2 -> c [] w = 4 -> Append(c, 0) [] w = 5 -> c \o <<118, 32>> [] OTHER -> <<>>
      entry == CASE w = 6 -> <<65, 61, 120>> \o Append(c, 0) [] w = 7 -> <<65, 61, 120>> \o c \o <<10>> [] w < 6 -> CASE w = 0 -> <<65, 61, 120>> \o c [] w = 3 -> <<65, 61>> \o c \o <<121>> [] OTHER -> <<65, 61>>
  IN [tag |-> "utf8 " \o ToString(c), blocks |-> <<Blk(4, CommentBytes(vendor, <<entry>>))>>, needles |-> << <<97>> >>]
VcUtf8Size == 8 * (Len(Chars) + Len(BadChars))

\* Values of many lengths that begin or end with something special.
ValLens == <<1, 2, 3, 7, 8, 15, 16, 17, 29, 30, 31, 32, 33, 63, 64, 65, 100, 255, 256>>
Specials == <<0, 9, 10, 13, 32, 34, 39, 61, 92, 127>>
VcValue(n) ==
  LET len == At(ValLens, n)
      x == At(Specials, n \div Len(ValLens))
      w == n \div (Len(ValLens) * Len(Specials))
      value == [j \in 1..len |-> IF (w \in {0, 2} /\ j = len) \/ (w \in {1, 2} /\ j = 1) THEN x ELSE 64 + (j % 50)]
      name == <<110, 97, 109>>
  IN [tag |-> "value " \o ToString(<<len, x, w>>),
      blocks |-> <<Blk(4, CommentBytes(IF n % 2 = 0 THEN value ELSE <<118>>, << Entry(name, value), <<66, 61, 49>>, Entry(name, <<>>), Entry(name, value) >>))>>,
      needles |-> << name, <<98>>, name \o <<61>>, name \o <<61>> \o value, value >>]
VcValueSize == 3 * Len(ValLens) * Len(Specials)

\* Claimed lengths and counts that do not add up.
\* dv, dc, de, dl: deviations of vendor length, count, entry length and block length.
Dev == <<0, 1, -1, 4, -4, 8, 100, 65536>>
VcLengths(n) ==
  LET which == n % 5
      d == At(Dev, n \div 5)
      shape == (n \div 40) % 4
      vendor == IF shape = 1 THEN <<>> ELSE <<118, 101, 110>>
      items == CASE shape = 0 -> << <<65, 61, 49>>, <<66, 61, 50, 50>> >>
                 [] shape = 1 -> <<>>
                 [] shape = 2 -> << <<>>, <<65, 61>>, <<>> >>
                 [] shape = 3 -> << <<66, 61, 50, 50, 50, 50, 50, 50>> >>
      le(x) == Le32Bytes(MaxOf(0, x))
      body == le(Len(vendor) + (IF which = 0 THEN d ELSE 0)) \o vendor
              \o le(Len(items) + (IF which = 1 THEN d ELSE 0))
              \o FlattenSeq([j \in 1..Len(items) |->
                   le(Len(items[j]) + (IF (which = 2 /\ j = 1) \/ (which = 3 /\ j = Len(items)) THEN d ELSE 0)) \o items[j]])
      len == MaxOf(0, Len(body) + (IF which = 4 THEN d ELSE 0))
  IN [tag |-> "lengths " \o ToString(<<which, d, shape>>),
      blocks |-> <<Claim(4, len, SubSeq(body \o [j \in 1..120 |-> 0], 1, MinOf(len, Len(body) + 120)))>>,
      needles |-> << <<97>> >>]

\* Bytes after the last comment, where the count may call for more.
VcTail(n) ==
  LET t == n % 10
      more == <<0, 1, 2, 200>>[((n \div 10) % 4) + 1]
      k == (n \div 40) % 3
      b == <<0, 1, 255>>[((n \div 120) % 3) + 1]
      body == Le32Bytes(1) \o <<118>> \o Le32Bytes(k + more) \o FlattenSeq([j \in 1..k |-> Le32Bytes(3) \o <<64 + j, 61, 49>>])
              \o Rep(b, t)
  IN [tag |-> "tail " \o ToString(<<t, more, k, b>>), blocks |-> <<Blk(4, body)>>, needles |-> << <<97>>, <<66>> >>]

\* Huge 32-bit lengths and counts in every place.
VcHuge(n) ==
  LET v == At(<< <<255, 255, 255, 255>>, <<0, 0, 0, 128>>, <<255, 255, 255, 127>>, <<0, 0, 0, 64>>, <<0, 0, 160, 0>>, <<1, 0, 160, 0>>,
                 <<252, 255, 255, 255>>, <<248, 255, 255, 255>> >>, n)
      w == n \div 8
      body == CASE w = 0 -> v \o <<0, 0, 0, 0>> \o [j \in 1..20 |-> 0]
                [] w = 1 -> <<0, 0, 0, 0>> \o v \o [j \in 1..20 |-> 0]
                [] w = 2 -> <<0, 0, 0, 0, 1, 0, 0, 0>> \o v \o <<65, 61>> \o [j \in 1..20 |-> 0]
                [] w = 3 -> <<1, 0, 0, 0, 118, 2, 0, 0, 0, 2, 0, 0, 0, 65, 61>> \o v \o [j \in 1..20 |-> 0]
  IN [tag |-> "huge " \o ToString(<<w, v>>), blocks |-> <<Blk(4, body)>>, needles |-> <<>>]

\* Very short blocks.
VcShort(n) == [tag |-> "short " \o ToString(n), blocks |-> <<Blk(4, [j \in 1..n |-> 0])>>, needles |-> <<>>]

---------------------------------------------------------------------------
(* Sequences of blocks *)

Vc1 == Blk(4, CommentBytes(<<118>>, << <<65, 61, 49>> >>))
Vc2 == Blk(4, CommentBytes(<<119>>, <<>>))
Kinds == << GoodSi, Vc1, Vc2, Blk(1, <<0, 0, 0>>), Blk(1, <<>>), Blk(2, <<97, 98, 99, 100, 1, 2>>), Blk(3, [j \in 1..18 |-> j]),
            Blk(5, <<1, 2, 3, 4, 5>>), Blk(6, [j \in 1..7 |-> 255]), Blk(7, <<9>>), Blk(126, <<>>), Blk(127, <<0>>),
            Blk(2, <<1, 2, 3>>), Blk(2, <<1, 2, 3, 4>>), Blk(127, <<>>), Blk(4, CommentBytes(<<>>, <<>>)), Blk(4, CommentBytes(<<>>, << <<>> >>)) >>

\* All sequences of up to three blocks of these kinds (the first one mostly stream info).
SeqEnum(n) ==
  LET b == Len(Kinds) IN
  [tag |-> "seq " \o ToString(n),
   blocks |-> IF n < b THEN <<Kinds[n + 1]>>
              ELSE IF n < b + b * b THEN LET m == n - b IN <<Kinds[(m % b) + 1], Kinds[(m \div b) + 1]>>
              ELSE LET m == n - b - b * b IN
                   <<GoodSi, Kinds[(m % b) + 1], Kinds[((m \div b) % b) + 1]>> ]
SeqSize == Len(Kinds) + 2 * Len(Kinds) * Len(Kinds)

\* Longer random sequences with bodies of random length.
SeqRandom(n) ==
  LET k == R(1..6)
      one(j) == LET ty == Pick(<<1, 2, 3, 5, 6, 7, 64, 126>>) IN
                IF R(1..5) = 1 THEN (IF R(1..3) = 1 THEN Pick(Kinds) ELSE Vc1)
                ELSE Blk(ty, Vec(IF ty = 2 THEN R(4..40) ELSE IF R(1..4) = 1 THEN R(2000..2100) ELSE R(0..60), 0..255))
  IN [tag |-> "seq random", blocks |-> <<GoodSi>> \o TLCEval([j \in 1..k |-> one(j)])]

\* Application blocks (and others with a body) of many lengths and contents.
AppLens == <<4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 33, 64, 255, 256, 260>>
AppCases(n) ==
  LET len == At(AppLens, n)
      w == (n \div Len(AppLens)) % 7
      byte(j) == CASE w = 0 -> 0
                   [] w = 1 -> IF j <= len - 3 THEN 65 + (j % 26) ELSE 0        \* zeros at the end
                   [] w = 2 -> IF j > 7 THEN 97 + (j % 26) ELSE 0               \* zeros in front
                   [] w = 3 -> 255
                   [] w = 4 -> IF j % 2 = 0 THEN 0 ELSE 10 + (j % 7)
                   [] w = 5 -> (j * 37 + n) % 256
                   [] w = 6 -> IF j % 4 = 1 THEN 32 ELSE 13 - (j % 4)
      ty == At(<<2, 2, 2, 1, 2, 3, 60>>, n \div (7 * Len(AppLens)) + n)
  IN [tag |-> "app " \o ToString(<<ty, len, w>>), blocks |-> <<Blk(ty, [j \in 1..len |-> byte(j)])>>]
AppSize == 14 * Len(AppLens)

\* Every block type, for reading blocks on their own.
Types(n) == LET ty == n % 128 len == At(<<0, 1, 4, 5, 8, 34>>, n \div 128)
            IN [tag |-> "type " \o ToString(<<ty, len>>), blocks |-> <<Blk(ty, [j \in 1..len |-> 0])>>]

---------------------------------------------------------------------------
Size == CASE Family = "si" -> SiEnumSize
          [] Family = "silen" -> Len(SiLens)
          [] Family = "vcbytes" -> 1280
          [] Family = "vcutf8" -> VcUtf8Size
          [] Family = "vclen" -> 160
          [] Family = "vcnames" -> VcNamesSize
          [] Family = "vclong" -> VcLongSize
          [] Family = "vctail" -> 360
          [] Family = "vcplace" -> VcPlaceSize
          [] Family = "vcmany" -> VcManySize
          [] Family = "vcvalue" -> VcValueSize
          [] Family = "vchuge" -> 32
          [] Family = "vcshort" -> 24
          [] Family = "seq" -> SeqSize
          [] Family = "types" -> 768
          [] Family = "app" -> AppSize
          [] Family \in {"sirand", "vcrand", "seqrand"} -> Count
Make(n) == CASE Family = "si" -> SiEnum(n)
             [] Family = "sirand" -> SiRandom(n)
             [] Family = "silen" -> SiLen(n)
             [] Family = "vcrand" -> VcRandom(n)
             [] Family = "vcbytes" -> VcBytes(n)
             [] Family = "vcutf8" -> VcUtf8(n)
             [] Family = "vclen" -> VcLengths(n)
             [] Family = "vcnames" -> VcNames(n)
             [] Family = "vclong" -> VcLong(n)
             [] Family = "vctail" -> VcTail(n)
             [] Family = "vcplace" -> VcPlace(n)
             [] Family = "vcmany" -> VcMany(n)
             [] Family = "vcvalue" -> VcValue(n)
             [] Family = "vchuge" -> VcHuge(n)
             [] Family = "vcshort" -> VcShort(n)
             [] Family = "seq" -> SeqEnum(n)
             [] Family = "seqrand" -> SeqRandom(n)
             [] Family = "types" -> Types(n)
             [] Family = "app" -> AppCases(n)

Init == idx = Offset % Stride
Next == /\ idx < Size
        /\ PrintT("CASE " \o ToJson([n |-> idx] @@ Make(idx)))
        /\ idx' = idx + Stride
Spec == Init /\ [][Next]_idx
=============================================================================
