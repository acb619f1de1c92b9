------------------------------ MODULE GenBytes ------------------------------
(***************************************************************************)
(* Histories of byte-level and of bit-level reads: all short ones over a    *)
(* small source (with at most one obstacle), and random longer ones.        *)
(***************************************************************************)
EXTENDS Bytes, Json, TLC

CONSTANTS Family, Stride, Offset, Count

VARIABLE idx

R(S) == RandomElement(S)
Pick(q) == q[R(1..Len(q))]
At(q, n) == q[(n % Len(q)) + 1]
Vec(k, S) == TLCEval([j \in 1..k |-> R(S)])

Op(name) == [op |-> name]
OpN(name, n) == [op |-> name, n |-> n]

---------------------------------------------------------------------------
(* Bytes *)

Alphabet == << Op("u8"), Op("u8e"), Op("be16"), Op("be16e"), Op("be24"), Op("be32"), Op("le32"),
               OpN("into", 1), OpN("into", 2), OpN("into", 5), OpN("skip", 1), OpN("skip", 3), OpN("skip", 6) >>
Small == <<17, 34, 51, 68, 85, 102, 119>>
\* obstacles: none, or a kind at a position, or the two kinds in succession
Kinds == <<"eof", "wouldblock#1">>
Obstacles ==
  << <<>> >> \o [j \in 1..16 |-> << [at |-> (j - 1) \div 2, kind |-> At(Kinds, j - 1)] >>]
  \o << << [at |-> 2, kind |-> "eof"], [at |-> 2, kind |-> "timedout#2"] >>,
        << [at |-> 1, kind |-> "other#3"], [at |-> 3, kind |-> "eof"] >>,
        << [at |-> 0, kind |-> "other#4"], [at |-> 5, kind |-> "ueof#5"] >> >>
Fragments == << <<>>, <<1>>, <<2>>, <<3>>, <<2, 1>>, <<4, 1>>, <<5>> >>

\* Three operations, then the rest byte by byte.
ByteEnum(n) ==
  LET a == Len(Alphabet)
      m == n \div (a * a * a)
  IN [kind |-> "buf", bytes |-> Small, faults |-> At(Obstacles, m), chunks |-> At(Fragments, m + n),
      ops |-> << At(Alphabet, n), At(Alphabet, n \div a), At(Alphabet, n \div (a * a)) >>
              \o [j \in 1..8 |-> IF j % 2 = 0 THEN Op("u8e") ELSE Op("u8")]]
ByteEnumSize == Len(Alphabet) * Len(Alphabet) * Len(Alphabet) * Len(Obstacles)

Big == <<0, 1, 2, 3, 4, 5, 10, 100, 2040, 2047, 2048, 2049, 2056, 4096, 4200, 70000>>
RandomOp(n) ==
  LET c == R(1..13) IN
  IF c <= 4 THEN Op(At(<<"u8", "u8e", "be16", "be16e">>, c))
  ELSE IF c <= 7 THEN Op(At(<<"be24", "be32", "le32">>, c))
  ELSE OpN(IF c % 2 = 0 THEN "into" ELSE "skip", IF R(1..3) = 1 THEN Pick(Big) ELSE R(1..9))
RECURSIVE Sorted(_)
Sorted(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o Sorted(s \ {m})
ByteRandom(n) ==
  LET len == IF n % 4 = 0 THEN R(0..12) ELSE IF n % 4 = 1 THEN R(10..60) ELSE IF n % 4 = 2 THEN R(2040..2060) ELSE R(4000..4300)
      kind == At(<<"buf", "mbuf", "buf", "buf", "mbuf", "cur", "mcur">>, n)
      where == {R(0..(len + 0 * j)) : j \in 1..R(0..3)} \cup (IF len > 2048 /\ R(1..2) = 1 THEN {2048} ELSE {})
      at == Sorted(where)
      faults == [j \in 1..Len(at) |-> [at |-> at[j], kind |-> Pick(<<"eof", "wouldblock#" \o ToString(j), "timedout#" \o ToString(j),
                                                                     "ueof#" \o ToString(j)>>)]]
      chunks == Pick(<< <<>>, <<1>>, <<2>>, <<7>>, <<1, 0>>, <<3, 5, 1>>, <<1000>>, <<2047, 1>>, <<2048>> >>)
  IN [kind |-> kind, bytes |-> Vec(len, 0..255), faults |-> IF kind \in {"cur", "mcur"} THEN <<>> ELSE TLCEval(faults),
      chunks |-> IF kind \in {"cur", "mcur"} THEN <<>> ELSE chunks,
      ops |-> TLCEval([j \in 1..R(3..14) |-> RandomOp(j)]) \o [j \in 1..4 |-> Op("u8e")]]

\* One long operation that ends at, or one byte off, the end of the source or
\* of the reader's buffer (2048 bytes in this implementation; it need not be).
Lens == <<0, 1, 2, 3, 4, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130, 255, 256, 257, 258, 259, 300, 383, 384, 511,
          512, 513, 514, 600, 767, 768, 769, 1000, 1023, 1024, 1025, 1500, 2046, 2047, 2048, 2049, 2050, 2051, 3000, 4095,
          4096, 4097, 4098, 5000, 6143, 6145>>
EdgeSize == Len(Lens) * 3 * 3 * 2 * 3 * 4
ByteEdge(n) ==
  LET kind == At(<<"buf", "cur", "mbuf", "mcur">>, n)
      d == ((n \div 4) % 3) - 1
      lead == (n \div 12) % 3
      how == At(<<"skip", "into">>, n \div 36)
      rel == (n \div 72) % 3
      len == At(Lens, n \div 216)
      amount == d - lead + (CASE rel = 0 -> len [] rel = 1 -> 2048 [] rel = 2 -> len \div 2)
      one == OpN(how, IF amount < 0 THEN 0 ELSE amount)
  IN [kind |-> kind, bytes |-> TLCEval([j \in 1..len |-> (j * 7 + j \div 256) % 256]), faults |-> <<>>,
      chunks |-> IF kind \in {"cur", "mcur"} THEN <<>> ELSE At(<< <<>>, <<2048>>, <<1000, 1>>, <<257>>, <<>> >>, n \div 16),
      ops |-> [j \in 1..lead |-> Op("u8")] \o <<one>> \o (IF rel = 2 THEN <<one>> ELSE <<>>)
              \o << Op("u8e"), Op("be16e"), Op("u8e") >>]

---------------------------------------------------------------------------
(* Bits *)

BitAlphabet == << Op("bit"), Op("unary") >> \o [j \in 1..9 |-> OpN("leq8", j - 1)] \o [j \in 1..8 |-> OpN("gt8", j + 8)]
               \o [j \in 1..17 |-> OpN("leq16", j - 1)] \o [j \in 1..33 |-> OpN("leq32", j - 1)]
NB == Len(BitAlphabet)
BitSource(n) == At(<< <<165, 60, 240, 15, 129, 66, 231, 24, 90, 3, 128, 1>>,
                      <<0, 0, 1, 0, 0, 128, 0, 0, 0, 0, 16, 0>>,
                      <<255, 254, 127, 255, 255, 191, 253, 255, 255, 255, 251, 255>>,
                      <<1, 35, 69, 103, 137, 171, 205, 239, 254, 220, 186, 152>> >>, n)
\* Some bits first (so that reads start at every offset), then two reads, one
\* more bit, and the byte after.
BitEnum(n) ==
  LET k == n \div (NB * NB) IN
  [kind |-> At(<<"buf", "cur", "mbuf", "mcur">>, n + n \div NB), bytes |-> BitSource(n + n \div NB + k), faults |-> <<>>,
   chunks |-> At(Fragments, n),
   ops |-> [j \in 1..(k % 8) |-> Op("bit")] \o << At(BitAlphabet, n), At(BitAlphabet, n \div NB), Op("bit"), Op("u8e"), Op("u8e") >>]
BitEnumSize == NB * NB * 8

RandomBits(n) ==
  LET c == R(1..8) IN
  CASE c = 1 -> Op("bit") [] c = 2 -> Op("unary") [] c \in 3..4 -> OpN("leq8", R(0..8))
    [] c = 5 -> OpN("gt8", R(9..16)) [] c = 6 -> OpN("leq16", R(0..16)) [] c = 7 -> OpN("leq32", R(0..32))
    [] OTHER -> IF R(1..4) = 1 THEN Op("u8e") ELSE OpN("leq32", R(17..32))
BitRandom(n) ==
  LET len == IF n % 16 = 0 THEN R(2040..2060) ELSE R(0..60)
      \* sparse ones make for long unary codes
      bytes == IF n % 3 = 0 THEN TLCEval([j \in 1..len |-> IF R(1..5) = 1 THEN Pow2(R(0..7)) ELSE 0]) ELSE Vec(len, 0..255)
  IN [kind |-> At(<<"buf", "cur", "mbuf", "mcur">>, n), bytes |-> bytes, faults |-> <<>>, chunks |-> At(Fragments, n \div 4),
      ops |-> TLCEval([j \in 1..R(4..40) |-> RandomBits(j)])]

---------------------------------------------------------------------------
Size == CASE Family = "bytes" -> ByteEnumSize [] Family = "bits" -> BitEnumSize [] Family = "edges" -> EdgeSize [] OTHER -> Count
Make(n) == CASE Family = "bytes" -> ByteEnum(n) [] Family = "bits" -> BitEnum(n)
             [] Family = "edges" -> ByteEdge(n) [] Family = "brand" -> ByteRandom(n) [] Family = "bitrand" -> BitRandom(n)

Init == idx = Offset % Stride
Next == /\ idx < Size
        /\ PrintT("CASE " \o ToJson([n |-> idx] @@ Make(idx)))
        /\ idx' = idx + Stride
Spec == Init /\ [][Next]_idx
=============================================================================
