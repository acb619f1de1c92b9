-------------------------------- MODULE Crc --------------------------------
(***************************************************************************)
(* The two cyclic redundancy checks of FLAC, defined from their generator  *)
(* polynomials by long division -- not from a table in the implementation. *)
(*   CRC-8   x^8 + x^2 + x + 1            initial value 0                   *)
(*   CRC-16  x^16 + x^15 + x^2 + 1        initial value 0                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

RECURSIVE Div8(_, _)
Div8(r, n) == IF n = 0 THEN r
              ELSE Div8(IF r >= 128 THEN ((r * 2) % 256) ^^ 7 ELSE r * 2, n - 1)

RECURSIVE Div16(_, _)
Div16(r, n) == IF n = 0 THEN r
               ELSE Div16(IF r >= 32768 THEN ((r * 2) % 65536) ^^ 32773 ELSE r * 2,
                          n - 1)

\* Remainders of the 256 one-byte dividends (constant-level, computed once).
Crc8Rem  == [v \in 1..256 |-> Div8(v - 1, 8)]
Crc16Rem == [v \in 1..256 |-> Div16((v - 1) * 256, 8)]

Crc8Step(r, x)  == Crc8Rem[(r ^^ x) + 1]
Crc16Step(r, x) == ((r % 256) * 256) ^^ Crc16Rem[((r \div 256) ^^ x) + 1]

Crc8(s)  == FoldLeft(Crc8Step, 0, s)
Crc16(s) == FoldLeft(Crc16Step, 0, s)
=============================================================================
