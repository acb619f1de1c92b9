----------------------------- MODULE GenStreams -----------------------------
(***************************************************************************)
(* Generates whole well-formed streams: metadata, then frames that belong  *)
(* together (one sample width, one number of channels, consecutive numbers *)
(* counted in frames or in samples, a last frame that may be shorter).     *)
(* The audio and its coding are drawn as in GenFrames.                     *)
(***************************************************************************)
EXTENDS GenFrames

VARIABLES
  st,      \* the stream: what its frames have in common, and where we are
  made     \* frames made so far

svars == <<gvars, st, made>>

Zero8 == <<0, 0, 0, 0, 0, 0, 0, 0>>
\* A number with room for a few additions.
BaseNumber(variable) ==
  LET b == Pick(IF variable THEN <<0, 0, 7, 15, 20, 31, 32, 33, 35>> ELSE <<0, 0, 6, 7, 11, 16, 26, 30>>)
      x == NumberWithBits(b)
  IN IF R(1..3) = 1 THEN x ELSE IF R(1..2) = 1 THEN Zero8
     \* just below a change of length of the coded number
     ELSE DAdd(IF b = 0 THEN Zero8 ELSE [x EXCEPT ![8] = 255], Zero8)

DrawStream ==
  LET k == n + Lane
      variable == k % 2 = 0
      nch == IF k % 3 = 0 THEN R(1..8) ELSE IF k % 3 = 1 THEN 2 ELSE R(1..3)
      bps == <<8, 12, 16, 20, 24>>[((k \div 3) % 5) + 1]
      bs == IF Profile = "blocks" THEN R(100..300) ELSE R(16..40)
      frames == R(1..5)
      \* fixed block size: do the bounds in the stream info say so?
      tight == R(1..4) > 1
  IN [variable |-> variable, nch |-> nch, bps |-> bps, bs |-> bs, frames |-> frames,
      tight |-> tight, short |-> ~variable /\ tight /\ R(1..3) > 1,
      base |-> BaseNumber(variable), pos |-> <<>>, first |-> <<>>]

StartStream ==
  /\ ph = "hdr" /\ st = <<>>
  /\ \E s \in {DrawStream} :
       LET at == IF s.variable THEN s.base ELSE DMul(s.base, s.bs, 0)
       IN st' = [s EXCEPT !.pos = at, !.first = at]
  /\ made' = <<>>
  /\ UNCHANGED gvars

DrawStreamHeader ==
  LET i == Len(made)
      last == i + 1 = st.frames
      bs == IF st.variable THEN R(IF R(1..3) = 1 THEN 1..16 ELSE 16..st.bs)
            ELSE IF last /\ st.short THEN R(1..(st.bs - 1)) ELSE st.bs
      cha == IF st.nch = 2 THEN Pick(<<1, 8, 9, 10>>) ELSE st.nch - 1
      num == IF st.variable THEN st.pos ELSE DAdd(st.base, Digits(i, 8))
      src == R(0..14)
  IN [variable |-> st.variable, num |-> num, numlen |-> NumberLen(num),
      bsc |-> IF bs > 256 THEN 7 ELSE R({6, 7}), bs |-> bs,
      src |-> src, srx |-> SrxOf(src), cha |-> cha, bpc |-> BpsCode(st.bps), bps |-> st.bps, subs |-> <<>>]

StreamHeader ==
  /\ ph = "hdr" /\ st # <<>> /\ Len(made) < st.frames
  /\ f' = DrawStreamHeader
  /\ ph' = "pcm"
  /\ UNCHANGED <<n, pcm, todo, st, made>>

Body == (ChoosePcm \/ ChooseSub) /\ UNCHANGED <<st, made>>

KeepFrame ==
  /\ ph = "emit"
  /\ made' = Append(made, [bytes |-> FrameBytes(f), pcm |-> pcm, num |-> f.num, time |-> st.pos, bs |-> f.bs,
                           hdrlen |-> Len(HeaderBytes(f))])
  /\ st' = [st EXCEPT !.pos = DAdd(@, Digits(f.bs, 8))]
  /\ ph' = "hdr" /\ f' = <<>> /\ pcm' = <<>> /\ todo' = <<>>
  /\ n' = n

\* Metadata blocks after the stream info.
Blk(ty, body) == [ty |-> ty, len |-> Len(body), body |-> body]
Word(k) == Vec(k, 65..90)
DrawBlock(j) ==
  LET c == R(1..(6 + 0 * j)) IN
  CASE c = 1 -> Blk(1, [i \in 1..R(0..9) |-> 0])
    [] c = 2 -> Blk(2, Vec(R(4..12), 0..255))
    [] c = 3 -> Blk(3, Vec(18 * R(0..2), 0..255))
    [] c = 4 -> Blk(6, Vec(R(0..30), 0..255))
    [] c = 5 -> Blk(R(7..126), Vec(R(0..8), 0..255))
    [] c = 6 -> Blk(5, Vec(R(0..20), 0..255))
DrawMeta ==
  LET s == st
      lo == IF s.variable \/ ~s.tight THEN 16 ELSE s.bs
      \* a variable stream may well have tight bounds, too
      bounds == IF s.variable /\ R(1..3) = 1 THEN <<s.bs, s.bs>> ELSE <<lo, IF lo = s.bs THEN s.bs ELSE R(s.bs..65535)>>
      bounds2 == IF ~s.variable /\ ~s.tight /\ bounds[1] = bounds[2] THEN <<bounds[1], bounds[2] + 1>> ELSE bounds
      samples == IF R(1..2) = 1 THEN <<0, 0, 0, 0, 0>> ELSE <<R(0..15)>> \o Vec(4, 0..255)
      si == Blk(0, StreamInfoBytes(bounds2[1], bounds2[2], R(0..9), Pick(<<0, 9, 65536>>), R(1..655350), s.nch, s.bps,
                                   samples, Vec(16, 0..255)))
      before == TLCEval([j \in 1..R(0..2) |-> DrawBlock(j)])
      vc == IF R(1..3) = 1 THEN <<>>
            ELSE <<Blk(4, CommentBytes(Word(R(0..5)), TLCEval([j \in 1..R(0..3) |-> Word(R(1..3)) \o <<61>> \o Word(R(0..4))])))>>
      after == TLCEval([j \in 1..R(0..2) |-> DrawBlock(j)])
  IN <<si>> \o before \o vc \o after

FinishStream ==
  /\ ph = "hdr" /\ st # <<>> /\ Len(made) = st.frames
  /\ PrintT("CASE " \o ToJson([n |-> n + Lane, meta |-> DrawMeta, frames |-> made,
                               variable |-> st.variable, nch |-> st.nch, bps |-> st.bps, bs |-> st.bs,
                               tight |-> st.tight, short |-> st.short]))
  /\ st' = <<>> /\ made' = <<>>
  /\ n' = n + 1
  /\ ph' = IF n + 1 = Count THEN "done" ELSE "hdr"
  /\ UNCHANGED <<f, pcm, todo>>

StreamInit == Init /\ st = <<>> /\ made = <<>>
StreamNext == StartStream \/ StreamHeader \/ Body \/ KeepFrame \/ FinishStream
StreamSpec == StreamInit /\ [][StreamNext]_svars
=============================================================================
