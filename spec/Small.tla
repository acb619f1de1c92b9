------------------------------- MODULE Small -------------------------------
(***************************************************************************)
(* All small subframes.  "valid": every sequence of a few narrow samples in  *)
(* every coding with small parameters; decoding has to give the samples      *)
(* back.  "any": every short string of bits taken for a subframe; decoding    *)
(* has to end, take no more than there is, and accept only what is the        *)
(* coding of the samples it delivers.                                         *)
(***************************************************************************)
EXTENDS Flac, Encoder, Json

CONSTANTS Family, Stride, Offset, Emit

SmallInput(c) == [bytes |-> c.bytes, faults |-> <<>>]

---------------------------------------------------------------------------
(* Well-formed subframes *)

Width(n) == -Pow2(n - 1)..(Pow2(n - 1) - 1)
\* Lengths and sample widths.
Shapes == {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<2, 3>>, <<3, 1>>, <<3, 2>>, <<3, 3>>, <<4, 1>>, <<4, 2>>, <<5, 1>>, <<6, 1>>, <<8, 1>>}
\* Partition orders a block of n with warm-up w can have.
POrders(n, w) == {p \in 0..3 : n % Pow2(p) = 0 /\ w <= n \div Pow2(p)}

\* A Rice parameter for each partition, derived from one choice.
Ks(c, p) == [i \in 1..Pow2(p) |-> (c + i * (c % 2)) % 3]
\* Longer predictors, over samples that say where they are.
Steps(n) == [i \in 1..n |-> ((i * 37) % 64) - 32]
Code(s) == FoldLeft(LAMBDA a, v : (a * 31 + v + 8) % 65521, Len(s), s)
Mix(d) == Code(d.sam) + d.order * 17 + d.wasted * 5
          + (IF "ks" \in DOMAIN d THEN d.method * 3 + d.porder * 7 + Code(d.ks) ELSE 0)
          + (IF "coefs" \in DOMAIN d THEN d.shift * 11 + Code(d.coefs) ELSE 0)
Chosen(d) == Mix(d) % Stride = Offset % Stride
Case(d, b, n) == [sub |-> d, bps |-> b, bs |-> n, bytes |-> Aligned(PutSub(W0, d, b))]
Begin(d, b) == Chosen(d) /\ DecoderInit(TLCEval(Case(d, b, Len(d.sam))))

\* A residual in every shape it can have.
Residual(base, s, o, b) ==
  \E m \in 0..1, p \in POrders(Len(s), o), c \in 0..3 :
     Begin(base @@ [sam |-> s, order |-> o, method |-> m, porder |-> p, ks |-> Ks(c, p)], b)

InitValid ==
  \/ \E sh \in Shapes, w \in 0..2 :
       \/ \E v \in Width(sh[2]) : Begin([ty |-> "const", order |-> 0, wasted |-> w, sam |-> [i \in 1..sh[1] |-> v]], sh[2] + w)
       \/ \E s \in [1..sh[1] -> Width(sh[2])] : Begin([ty |-> "verb", order |-> 0, wasted |-> w, sam |-> s], sh[2] + w)
       \/ /\ w < 2
          /\ \E s \in [1..sh[1] -> Width(sh[2])], o \in 0..MinOf(sh[1], 4) :
               Residual([ty |-> "fixed", wasted |-> w, shift |-> 0], s, o, sh[2] + w)
       \/ /\ w = 0 /\ sh[1] <= 3 /\ sh[2] <= 2
          /\ \E s \in [1..sh[1] -> Width(sh[2])], shift \in 0..2, o \in 1..MinOf(sh[1], 2) :
               \E cs \in [1..o -> Width(2)] :
                 Residual([ty |-> "lpc", wasted |-> 0, shift |-> shift, prec |-> 2, coefs |-> cs], s, o, sh[2])
  \/ \E o \in 1..32, n \in {32, 33, 40, 48}, shift \in {0, 1, 5}, a \in 1..3 :
       Residual([ty |-> "lpc", wasted |-> 0, shift |-> shift, prec |-> 3, coefs |-> [i \in 1..o |-> ((i * a) % 7) - 3]], Steps(n), o, 7)

---------------------------------------------------------------------------
(* Any short string, with types that exist *)

Heads == <<0, 1, 2, 3, 4, 5, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 30, 64, 65, 66, 67, 68, 128, 255>>
Total == 15 * 24 * 65536
InitAny ==
  \E i \in 0..((Total - 1 - (Offset % Stride)) \div Stride) :
    LET x == i * Stride + (Offset % Stride)
        y == x \div 65536
    IN DecoderInit([bps |-> ((y \div 72) % 5) + 1, bs |-> ((y \div 24) % 3) + 1,
                    bytes |-> <<Heads[(y % 24) + 1], (x \div 256) % 256, x % 256>>])

---------------------------------------------------------------------------

SmallInit == IF Family = "valid" THEN InitValid ELSE InitAny
Start == pc = "idle" /\ res.k = "pending" /\ StartSub(cid.bps, cid.bs)
Next == Start \/ (~CallDone /\ DecoderStep)
Spec == SmallInit /\ [][Next]_vars /\ WF_vars(Next)

\* Decoding inverts encoding, and takes exactly the bytes of the subframe.
RoundTrip == CallDone /\ Family = "valid" =>
  /\ res.k = "sub" /\ ~res.wide /\ ip = Len(B)
  /\ res.v = [i \in 1..cid.bs |-> cid.sub.sam[i] * Pow2(cid.sub.wasted)]
\* Nothing is made up: as many samples as asked for, and never from bits that
\* are not there; and a string that ends too early is not called ill-formed.
Sound == CallDone =>
  /\ ip <= Len(B)
  /\ res.k = "sub" => Len(res.v) = cid.bs /\ \E b \in 1..8 * Len(B) : fr.bp = b
  /\ res.k = "err" /\ res.cls = "io" => ip = Len(B)
\* Constant and verbatim samples are in range.
InRange == CallDone /\ res.k = "sub" /\ sf.ty = "none" /\ B[1] \in {0, 1, 2, 3} =>
  \A i \in 1..cid.bs : res.v[i] \in Width(cid.bps)

Terminates == <>(CallDone)

Printed == Emit /\ CallDone => PrintT("CASE " \o ToJson([bytes |-> B, bps |-> cid.bps, bs |-> cid.bs]))
=============================================================================
