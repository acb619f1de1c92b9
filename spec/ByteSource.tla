----------------------------- MODULE ByteSource -----------------------------
(***************************************************************************)
(* The byte-level reading interface, as its users see it: every byte of the *)
(* source is handed out exactly once and in order, also across errors and   *)
(* temporary ends of the input.                                             *)
(*                                                                         *)
(* An operation that needs more bytes than there are before the next        *)
(* obstacle fails.  How many of the bytes before the obstacle a failed      *)
(* operation has taken is its own business, but they are then gone, in      *)
(* order; therefore the state is the *set* of positions the reader may be   *)
(* at.  Whatever is read later has to be explained by one of them.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Stream(b, f) == [bytes |-> b, faults |-> f]

\* Bytes before the next obstacle, and what the obstacle is.
Limit(s, nf) == IF nf < Len(s.faults) THEN s.faults[nf + 1].at ELSE Len(s.bytes)
Obstacle(s, nf) == IF nf < Len(s.faults) THEN s.faults[nf + 1].kind ELSE "eof"
Fired(s, nf) == IF nf < Len(s.faults) THEN nf + 1 ELSE nf

\* Bytes an operation needs; those marked "e" treat an end of the input before
\* the first byte as an outcome rather than an error.
Need(op, n) == CASE op \in {"u8", "u8e"} -> 1
                 [] op \in {"be16", "be16e"} -> 2
                 [] op = "be24" -> 3
                 [] op \in {"be32", "le32"} -> 4
                 [] op \in {"into", "skip"} -> n
TellsEnd(op) == op \in {"u8e", "be16e"}

\* From the positions `at` and the result r of an operation: the positions the
\* reader can be at afterwards, {} if the operation cannot have this result.
After(s, nf, at, op, n, r) ==
  LET k == Need(op, n)
      lim == Limit(s, nf)
      fits == {p \in at : k <= lim - p \/ k = 0}
      ends == {p \in at : TellsEnd(op) /\ p >= lim /\ Obstacle(s, nf) = "eof"}
      \* whether nothing can be read past the end is left open
      short == {p \in at : k > lim - p} \ ends
  IN IF r.k = "bytes" THEN
       {p + k : p \in {q \in fits : r.v = IF op = "skip" THEN <<>> ELSE SubSeq(s.bytes, q + 1, q + k)}}
     ELSE IF r.k = "none" THEN ends
     ELSE IF r.k = "err" /\ r.cls = "io" /\ r.kind = Obstacle(s, nf) /\ short # {} THEN
       LET first == CHOOSE p \in short : \A q \in short : p <= q
       IN IF first > lim THEN {first} ELSE first..lim
     ELSE {}

\* Whether the obstacle has taken effect.  (All positions in question agree on
\* that: a result tells success from failure.)
Blocked(r) == r.k # "bytes"
=============================================================================
