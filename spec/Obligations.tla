---------------------------- MODULE Obligations ----------------------------
(***************************************************************************)
(* What each property requires of one recorded call.  `res` is the outcome *)
(* the decoder specification computes, `obs` the recorded one.             *)
(*                                                                         *)
(*   Applies(p, res, obs)  the property says something about this call      *)
(*   Holds(p, res, obs)    and what it says is true                         *)
(*                                                                         *)
(* A run is compared call by call until an outcome that leaves the rest     *)
(* unspecified (an ill-formed stream), or a disagreement that is not the    *)
(* business of the property at hand.                                       *)
(***************************************************************************)
EXTENDS Flac

CONSTANT Prop        \* the property whose obligations are enforced

---------------------------------------------------------------------------
(* Equality of recorded and specified values *)

SiSame(s, o) ==
  /\ o.minbs = s.minbs /\ o.maxbs = s.maxbs
  /\ o.minfs = (IF s.minfs = 0 THEN <<>> ELSE <<s.minfs>>)
  /\ o.maxfs = (IF s.maxfs = 0 THEN <<>> ELSE <<s.maxfs>>)
  /\ o.rate = s.rate /\ o.channels = s.channels /\ o.bps = s.bps
  /\ o.samples = (IF s.samples = <<0, 0, 0, 0, 0>> THEN <<>> ELSE <<0, 0, 0>> \o s.samples)
  /\ o.md5 = s.md5

CommentsSame(cs, os) ==
  /\ Len(cs) = Len(os)
  /\ \A i \in 1..Len(cs) : cs[i].name = os[i].name /\ cs[i].value = os[i].value

Lower(x) == IF x \in 65..90 THEN x + 32 ELSE x
SameName(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Lower(a[i]) = Lower(b[i])
Lookup(cs, needle) ==
  LET hits == SelectSeq(cs, LAMBDA c : SameName(c.name, needle))
  IN [i \in 1..Len(hits) |-> hits[i].value]
GetsSame(cs, gets) == \A i \in 1..Len(gets) : gets[i].values = Lookup(cs, gets[i].needle)

VcSame(r, o) ==
  /\ o.hasvc = r.hasvc
  /\ o.vendor = r.vc.vendor
  /\ CommentsSame(r.vc.comments, o.tags)
  /\ o.ntags = Len(r.vc.comments)
  /\ GetsSame(r.vc.comments, o.gets)

BlkVcSame(b, o) ==
  /\ o.k = "vc"
  /\ o.vc.vendor = b.vc.vendor
  /\ CommentsSame(b.vc.comments, o.vc.comments)
  /\ GetsSame(b.vc.comments, o.gets)

MetaSame(b, o) ==
  /\ o.k = b.k
  /\ CASE b.k = "si" -> SiSame(b.si, o.si)
       [] b.k = "pad" -> o.len = b.len
       [] b.k = "app" -> o.id = b.id /\ o.data = b.data
       [] b.k = "vc" -> BlkVcSame(b, o)
       [] OTHER -> TRUE

ErrSame(r, o) == o.k = "err" /\ o.cls = r.cls /\ o.kind = r.kind
ErrClass(r, o) == o.k = "err" /\ o.cls = r.cls

ShapeSame(r, o) == o.k = "block" /\ o.bs = r.bs /\ o.nch = r.nch
                   /\ Len(o.chans) = r.nch /\ \A c \in 1..r.nch : Len(o.chans[c]) = r.bs
AudioSame(r, o) == ShapeSame(r, o) /\ (r.wide \/ o.chans = r.chans)

TimeSame(r, o) == o.time = r.time

SamplesSame(r, o) ==
  /\ o.k = "samples"
  /\ Len(o.got) = Len(r.got) /\ (r.wide \/ o.got = r.got)
  /\ IF r.end.k = "err" THEN ErrSame(r.end, o.end) ELSE o.end.k = r.end.k

\* The bounds on the number of items to come that an iterator over metadata
\* blocks announced before this one are true (-1: no upper bound).
BoundsTrue(r, o) ==
  "lo" \in DOMAIN o =>
     (IF r.k = "none" THEN o.lo = 0
      ELSE /\ o.lo <= 1
           /\ (o.hi = -1) \/ (o.hi >= (IF (r.k = "meta") /\ ~md.last THEN 2 ELSE 1)))

\* Complete agreement.
Full(r, o) == BoundsTrue(r, o) /\
  CASE r.k = "block" -> o.k = "block" /\ AudioSame(r, o) /\ TimeSame(r, o)
    [] r.k = "none" -> o.k = "none"
    [] r.k = "err" -> ErrSame(r, o)
    [] r.k = "opened" -> o.k = "opened" /\ SiSame(r.si, o.si) /\ VcSame(r, o)
    [] r.k = "meta" -> o.k = "meta" /\ MetaSame(r.blk, o.blk)
    [] r.k = "samples" -> SamplesSame(r, o)
    [] r.k = "bytes" -> o.k = "bytes" /\ o.v = r.v
    [] r.k = "sub" -> o.k = "sub" /\ (r.wide \/ o.v = r.v)
    [] r.k = "misuse" -> o.k = "misuse" /\ o.refused
    [] r.k = "inner" -> o.k = "ok"

\* The outcome as such is an error after which nothing more is promised.
Final(r) == r.k = "err" /\ r.cls \in {"fmt", "unsup"}
Ended(r) == IF r.k = "samples" THEN r.end.k = "err" /\ Final(r.end) ELSE Final(r)

EndsIo(r) == IF r.k = "samples" THEN r.end.k = "err" /\ r.end.cls = "io"
             ELSE r.k = "err" /\ r.cls = "io"
Why(r) == IF r.k = "samples" THEN (IF r.end.k = "err" THEN r.end.why ELSE "")
          ELSE IF r.k = "err" THEN r.why ELSE ""

---------------------------------------------------------------------------
(* Memory: a generous fixed multiple of what the input is entitled to *)
MetaBudget == 65536 + 16 * MinOf(md.big, TenMiB)
FrameBudget == 65536 + 8 * 4 * fr.nch * fr.bs

Crashed(o) == o.k \in {"panic", "hang", "crash"}
HeaderRules == {"sync", "code", "number", "size"}
Checksums == {"crc8", "crc16"}

\* Agreement on how far a call got, and on the way it ended.
Extent(r, o) ==
  CASE r.k = "samples" -> o.k = "samples" /\ Len(o.got) = Len(r.got) /\ o.end.k = r.end.k
                          /\ (r.end.k = "err" => ErrClass(r.end, o.end))
    [] r.k = "err" -> ErrClass(r, o)
    [] r.k = "block" -> ShapeSame(r, o)
    [] OTHER -> o.k = r.k
ExactError(r, o) ==
  IF r.k = "samples" THEN Extent(r, o) /\ (r.end.k = "err" => ErrSame(r.end, o.end))
  ELSE ErrSame(r, o)

Gives(o) == o.k \in {"block", "sub", "samples", "opened", "meta"}

Applies(r, o, op) ==
  CASE Prop = "C01" -> r.k \in {"block", "sub"}
    [] Prop = "C02" -> o.k = "block" \/ r.k = "block" \/ Why(r) \in Checksums
    [] Prop = "C03" -> TRUE
    [] Prop = "C05" -> EndsIo(r) \/ o.k = "none" \/ r.k # "err"
    [] Prop = "C06" -> r.k \in {"none", "block", "samples", "bytes"} \/ EndsIo(r)
    [] Prop = "C07" -> r.k = "opened" \/ (r.k = "meta" /\ r.blk.k = "si") \/ Why(r) = "si"
    [] Prop = "C08" -> r.k = "opened" \/ (r.k = "meta" /\ r.blk.k = "vc") \/ Why(r) = "vc"
    [] Prop = "C09" -> r.k \in {"opened", "block", "none", "misuse"}
                       \/ (r.k = "err" /\ r.why \in {"magic", "seq", "io", "body"})
    [] Prop = "C10" -> TRUE
    [] Prop = "C12" -> r.k \in {"samples", "block", "none"}
    [] Prop = "C14" -> r.k = "block"
    [] Prop = "C15" -> Why(r) \in HeaderRules \cup {"sub", "nobps", "body", "magic"}
    [] Prop \in {"C17", "FULL"} -> TRUE

Holds(r, o, op) ==
  CASE Prop = "C01" -> IF r.k = "block" THEN AudioSame(r, o) ELSE Full(r, o)
    \* a block comes from a frame that is all there and has the right checksums,
    \* and such a frame is not refused
    [] Prop = "C02" -> CASE Why(r) \in Checksums -> Extent(r, o)
                         [] r.k = "block" -> ~(o.k = "err" /\ o.cls = "fmt")
                         [] OTHER -> ~EndsIo(r)
    [] Prop = "C03" -> ~Crashed(o)
    [] Prop = "C05" -> IF EndsIo(r) THEN ExactError(r, o) ELSE Extent(r, o)
    [] Prop = "C06" -> CASE EndsIo(r) -> ExactError(r, o)
                         [] r.k = "block" -> AudioSame(r, o)
                         [] OTHER -> Full(r, o)
    [] Prop = "C07" -> CASE r.k = "opened" -> o.k = "opened" /\ SiSame(r.si, o.si)
                         [] r.k = "meta" -> o.k = "meta" /\ o.blk.k = "si" /\ SiSame(r.blk.si, o.blk.si)
                         [] OTHER -> ErrClass(r, o)
    [] Prop = "C08" -> CASE r.k = "opened" -> o.k = "opened" /\ VcSame(r, o)
                         [] r.k = "meta" -> o.k = "meta" /\ BlkVcSame(r.blk, o.blk)
                         [] OTHER -> ErrClass(r, o)
    [] Prop = "C09" -> CASE r.k = "opened" -> o.k = "opened" /\ SiSame(r.si, o.si) /\ o.hasvc = r.hasvc
                                              /\ Len(o.tags) = Len(r.vc.comments)
                         [] r.k = "block" -> AudioSame(r, o)
                         [] r.k = "none" -> o.k = "none"
                         [] r.k = "misuse" -> o.k = "misuse" /\ o.refused
                         [] OTHER -> ErrSame(r, o)
    [] Prop = "C10" -> /\ Why(r) = "body" => ErrClass(r, o)
                       \* a block within the limit is not refused for its length
                       /\ op.op \in {"open", "md", "mdh", "mdi"} /\ o.k = "err" /\ o.cls = "unsup" => Why(r) = "body"
                       /\ ~Crashed(o)
                       /\ "mem" \in DOMAIN o =>
                            o.mem <= (IF op.op \in {"open", "md", "mdh", "mdi"} THEN MetaBudget ELSE FrameBudget)
    [] Prop = "C12" -> IF r.k = "block" THEN AudioSame(r, o) ELSE Full(r, o)
    [] Prop = "C14" -> o.k = "block" /\ TimeSame(r, o)
    [] Prop = "C15" -> Extent(r, o)
    [] Prop \in {"C17", "FULL"} -> Full(r, o)

Meets(r, o, op) == Applies(r, o, op) => Holds(r, o, op)
=============================================================================
