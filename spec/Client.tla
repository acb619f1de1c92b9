------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* The decoder together with a client that may make any calls in any order, *)
(* on a few small streams, whole, damaged in any one bit, or interrupted at *)
(* any position.  What the properties promise is stated here about what the *)
(* client sees, without reference to how the decoder works, and checked in   *)
(* all reachable states.                                                    *)
(*                                                                         *)
(* With Emit, every complete history is printed; the histories are then      *)
(* played to the implementation.                                            *)
(***************************************************************************)
EXTENDS Flac, Encoder, Json

CONSTANTS Streams,     \* which streams
          Trouble,     \* "none", "damage" (one bit), "cut", "fault", "faults" (two, at frame boundaries)
          MaxCalls,    \* calls after the opening one
          Takes,       \* amounts of samples to ask for
          Stride, Offset,  \* of the sources, every Stride-th
          Emit

---------------------------------------------------------------------------
(* The streams *)

Const(v, n) == [ty |-> "const", order |-> 0, wasted |-> 0, sam |-> [i \in 1..n |-> v]]
Verb(s) == [ty |-> "verb", order |-> 0, wasted |-> 0, sam |-> s]
Fixed(o, s, k) == [ty |-> "fixed", order |-> o, wasted |-> 0, sam |-> s, shift |-> 0, method |-> 0, porder |-> 0, ks |-> <<k>>]
Num(n) == <<0, 0, 0, 0>> \o Digits(n, 4)
Frame(variable, num, cha, subs, pcm) ==
  [variable |-> variable, num |-> Num(num), numlen |-> NumberLen(Num(num)), bsc |-> 6, bs |-> Len(pcm[1]), src |-> 9, srx |-> <<>>,
   cha |-> cha, bpc |-> 1, bps |-> 8, subs |-> subs, pcm |-> pcm]
Mono(variable, num, sub) == Frame(variable, num, 0, <<sub>>, <<sub.sam>>)
Pair(variable, num, cha, c, k) ==
  LET d == Correlated(cha, c) IN Frame(variable, num, cha, <<Fixed(1, d[1], k), Verb(d[2])>>, c)

Si(lo, hi, ch, n) == <<0, StreamInfoBytes(lo, hi, 0, 0, 8000, ch, 8, <<0, 0, 0, 0, n>>, [i \in 1..16 |-> i])>>
Vc == <<4, CommentBytes(<<118>>, << <<65, 61, 49>>, <<97, 61>> >>)>>
Pad == <<1, <<0, 0>>>>

Ramp(n, a, d) == [i \in 1..n |-> a + d * i]
Stream(s) ==
  CASE s = 1 -> [meta |-> <<Si(16, 16, 1, 35)>>,
                 frames |-> <<Mono(FALSE, 0, Const(5, 16)), Mono(FALSE, 1, Fixed(2, Ramp(16, -20, 3), 0)), Mono(FALSE, 2, Verb(<<7, -8, 9>>))>>]
    [] s = 2 -> [meta |-> <<Si(16, 32, 2, 20), Pad, Vc>>,
                 frames |-> <<Pair(TRUE, 0, 10, <<Ramp(16, 1, 1), Ramp(16, 9, -2)>>, 2), Pair(TRUE, 16, 9, <<Ramp(4, 3, 5), Ramp(4, -7, 5)>>, 3)>>]
    [] s = 3 -> [meta |-> <<Si(16, 16, 2, 17), Vc, Pad>>,
                 frames |-> <<Pair(FALSE, 0, 8, <<Ramp(16, 10, -1), Ramp(16, 2, 2)>>, 2),
                              Frame(FALSE, 1, 1, <<Const(-3, 1), Const(4, 1)>>, << <<-3>>, <<4>> >>)>>]
    [] s = 4 -> [meta |-> <<Si(16, 16, 1, 0)>>, frames |-> <<>>]

MetaBytes(s) ==
  LET m == Stream(s).meta IN
  Marker \o FlattenSeq([i \in 1..Len(m) |-> MetaBlockBytes(i = Len(m), m[i][1], m[i][2])])
Whole == [s \in Streams |-> TLCEval(MetaBytes(s) \o FlattenSeq([i \in 1..Len(Stream(s).frames) |-> FrameBytes(Stream(s).frames[i])]))]
AudioAt == [s \in Streams |-> Len(MetaBytes(s))]
\* Where metadata block i ends; where each frame starts and the last one ends.
MetaEnds == [s \in Streams |-> TLCEval([i \in 1..Len(Stream(s).meta) |->
               4 + FoldLeft(LAMBDA a, j : a + 4 + Len(Stream(s).meta[j][2]), 0, Iota(i))])]
Bounds == [s \in Streams |-> TLCEval([i \in 1..(Len(Stream(s).frames) + 1) |->
               AudioAt[s] + FoldLeft(LAMBDA a, j : a + Len(FrameBytes(Stream(s).frames[j])), 0, Iota(i - 1))])]
\* Samples of all channels at one time follow each other.
Told(pcm) == FlattenSeq([t \in 1..Len(pcm[1]) |-> [c \in 1..Len(pcm) |-> pcm[c][t]]])
Audio == [s \in Streams |-> TLCEval(FlattenSeq([i \in 1..Len(Stream(s).frames) |-> Told(Stream(s).frames[i].pcm)]))]
Channels(s) == IF Stream(s).frames = <<>> THEN 1 ELSE Len(Stream(s).frames[1].pcm)

\* The sources: a stream and what is wrong with it: <<stream, kind, where, what>>.
Kinds == <<"eof", "timedout#1", "other#2">>
Sources ==
  CASE Trouble = "none" -> {<<s, "ok", 0, 0>> : s \in Streams}
    [] Trouble = "damage" -> UNION {{<<s, "bit", p, 0>> : p \in 0..(8 * Len(Whole[s]) - 1)} : s \in Streams}
    [] Trouble = "cut" -> UNION {{<<s, "cut", p, 0>> : p \in 0..(Len(Whole[s]) - 1)} : s \in Streams}
    [] Trouble = "fault" -> UNION {{<<s, "fault", p, k>> : p \in 0..Len(Whole[s]), k \in 1..3} : s \in Streams}
    [] Trouble = "faults" -> UNION {{<<s, "fault2", p, k>> : p \in 0..(Len(Bounds[s]) * Len(Bounds[s]) - 1), k \in 0..8} : s \in Streams}

Flip(b, p) == LET i == p \div 8 + 1 m == Pow2(7 - (p % 8)) IN
              [b EXCEPT ![i] = IF (@ \div m) % 2 = 1 THEN @ - m ELSE @ + m]
F2(c) == LET n == Len(Bounds[c[1]])
             a == Bounds[c[1]][(c[3] % n) + 1] b == Bounds[c[1]][(c[3] \div n) + 1]
         IN << [at |-> MinOf(a, b), kind |-> Kinds[(c[4] % 3) + 1]], [at |-> MaxOf(a, b), kind |-> Kinds[(c[4] \div 3) + 1]] >>
\* The input the decoder is connected to (what Flac.tla calls Input).
ClientInput(c) ==
  [bytes |-> CASE c[2] = "bit" -> Flip(Whole[c[1]], c[3]) [] c[2] = "cut" -> SubSeq(Whole[c[1]], 1, c[3]) [] OTHER -> Whole[c[1]],
   faults |-> CASE c[2] = "fault" -> << [at |-> c[3], kind |-> Kinds[c[4]]] >> [] c[2] = "fault2" -> F2(c) [] OTHER -> <<>>]

---------------------------------------------------------------------------
(* The client *)

VARIABLES hist,     \* the calls made
          from,     \* where the current frame began
          passed,   \* samples delivered, or passed over
          seen,     \* what the current call delivered: <<position, samples>>
          lost,     \* a frame or block has been interrupted: no claims any more
          was,      \* how many obstacles had been met before the current call
          over      \* the iterator has reported an error

cvars == <<vars, hist, from, passed, seen, lost, was, over>>

S == cid[1]
Index(c) == (c[1] * 7919 + c[3] * 3 + c[4]) % Stride

Init == /\ \E c \in Sources : Index(c) = Offset % Stride /\ DecoderInit(c)
        /\ hist = <<>> /\ from = 0 /\ passed = 0 /\ seen = <<0, <<>>>> /\ lost = FALSE /\ was = 0 /\ over = FALSE

\* Samples of the iterator's current block are given up by any call but its own.
Dropped(o) == IF o = "take" THEN 0 ELSE Len(it.pend)

ClientCall(o) ==
  /\ hist' = Append(hist, o)
  /\ from' = ip /\ seen' = <<passed, <<>>>>
  /\ passed' = passed + (IF it.on THEN Dropped(o[1]) ELSE 0)
  /\ lost' = lost /\ was' = nf
  /\ over' = (over /\ o[1] = "take")

Opened == hist # <<>> /\ (hist[1][2] = 0)
Calls == Len(hist) - 1

Open == /\ hist = <<>>
        /\ \E only \in 0..1, keep \in 0..1 :
             StartOpen(only = 1, keep = 1) /\ ClientCall(<<"open", only, keep>>)
NextBlock == /\ Opened /\ Calls < MaxCalls /\ StartNext /\ ClientCall(<<"next">>)
TakeOn == /\ Opened /\ Calls < MaxCalls /\ it.on
          /\ \E n \in Takes : StartTake(n, FALSE) /\ ClientCall(<<"take", n>>)
TakeNew == /\ Opened /\ Calls < MaxCalls
           /\ \E n \in Takes : StartTake(n, TRUE) /\ ClientCall(<<"iter", n>>)

Delivered == CASE res.k = "block" -> Told(res.chans)
               [] res.k = "samples" -> res.got
               [] OTHER -> <<>>
\* Where the frames begin and end: a call that fails there can be repeated.
\* A call that fails elsewhere, or over something ill-formed, or the opening
\* one, leaves nothing to build on.
End == IF res.k = "samples" THEN res.end ELSE res
Boundary(p) == \E i \in 1..Len(Bounds[S]) : Bounds[S][i] = p
Obstacle == IF nf = was THEN Len(B) ELSE F[nf].at
Broken == End.k = "err" /\ (End.cls # "io" \/ ~Boundary(Obstacle) \/ hist[Len(hist)][1] = "open")

CallReturns ==
  /\ CallDone /\ pc' = "idle"
  /\ UNCHANGED <<cid, ip, nf, fr, sf, md, it, res>>
  /\ seen' = <<passed, Delivered>>
  /\ passed' = passed + Len(Delivered)
  /\ lost' = (lost \/ Broken)
  /\ over' = (over \/ (res.k = "samples" /\ End.k = "err"))
  /\ UNCHANGED <<hist, from, was>>

Working == /\ ~CallDone /\ DecoderStep
           /\ from' = IF pc = "sync" THEN ip ELSE from
           /\ UNCHANGED <<hist, passed, seen, lost, was, over>>

\* Nothing more is tried once the outcome is open.
Calling == ~lost /\ (Open \/ NextBlock \/ TakeOn \/ TakeNew)
Next == Calling \/ Working \/ CallReturns
Spec == Init /\ [][Next]_cvars /\ WF_cvars(Working \/ CallReturns)

---------------------------------------------------------------------------
(* What the client is promised *)

Idled == pc = "idle" /\ hist # <<>>
IsErr(r) == r.k = "err"

\* C01, C12: what is delivered is the audio that was encoded, at its place,
\* interleaved; nothing is repeated, left out or made up.
Faithful ==
  Idled /\ cid[2] # "bit" =>
    seen[2] = SubSeq(Audio[S], seen[1] + 1, seen[1] + Len(seen[2]))

\* C02: of a damaged stream nothing else is ever delivered either -- every
\* single-bit error in a frame is found -- and no block without its checksums.
Guarded == CallDone /\ res.k = "block" =>
  /\ Crc16(SubSeq(B, from + 1, ip - 2)) = B[ip - 1] * 256 + B[ip]
  /\ \E h \in 6..16 : Crc8(SubSeq(B, from + 1, from + h - 1)) = B[from + h]
Undamaged ==
  Idled /\ cid[2] = "bit" /\ cid[3] >= 8 * AudioAt[S] =>
    seen[2] = SubSeq(Audio[S], seen[1] + 1, seen[1] + Len(seen[2]))

\* C05: a clean end only between frames, where the source ended; an error is
\* the one that was in the way.
Met == nf = was + 1
Ends ==
  CallDone /\ cid[2] # "bit" /\ ~lost =>
    /\ End.k = "none" /\ ~over => Boundary(ip) /\ (ip = Len(Whole[S]) \/ Lim = ip \/ (Met /\ F[nf].kind = "eof"))
    /\ End.k = "err" => End.cls = "io" /\ End.kind = (IF Met THEN F[nf].kind ELSE "eof")
    /\ End.k = "err" /\ ~Met => Len(B) < Len(Whole[S])
\* ... and all that comes before it is delivered.
Complete ==
  Idled /\ ~lost /\ End.k = "none" /\ ~over /\ ip = Len(Whole[S]) /\ Opened /\ cid[2] # "bit" =>
    passed = Len(Audio[S])
Before ==
  Idled /\ End.k = "err" /\ hist[Len(hist)][1] # "open" /\ cid[2] # "bit" =>
    passed = Len(FlattenSeq([i \in 1..Cardinality({j \in 2..Len(Bounds[S]) : Bounds[S][j] <= Obstacle}) |->
                   Told(Stream(S).frames[i].pcm)]))

\* C06: an obstacle between frames costs nothing: the next call goes on.
Resumed == Idled /\ ~lost /\ cid[2] \in {"fault", "fault2"} /\ End.k \in {"none", "err"} /\ Opened /\ ~over => Boundary(ip)
\* ... nor is it met again; and each stops one call only.
Advances == CallDone /\ End.k = "err" /\ cid[2] \in {"fault", "fault2"} => nf = was + 1

\* C09: audio begins after the last block; with the metadata-only option no
\* byte is taken beyond the last block of interest.
Wanted(only, keep) ==
  LET m == Stream(S).meta
      vcs == {i \in 1..Len(m) : m[i][1] = 4}
  IN IF only = 0 THEN Len(m) ELSE IF keep = 0 THEN 1 ELSE IF vcs = {} THEN Len(m) ELSE CHOOSE i \in vcs : TRUE
Positioned ==
  CallDone /\ res.k = "opened" /\ cid[2] # "bit" =>
    /\ ip = MetaEnds[S][Wanted(hist[1][2], hist[1][3])]
    /\ res.hasvc = (hist[1][3] = 1 /\ \E i \in 1..Len(Stream(S).meta) : Stream(S).meta[i][1] = 4)

\* C07, C08: the description of the stream is what was stored.
Described == CallDone /\ res.k = "opened" /\ cid[2] # "bit" =>
  /\ res.si.channels = Channels(S) /\ res.si.rate = 8000 /\ res.si.bps = 8
  /\ res.si.samples = <<0, 0, 0, 0, Len(Audio[S]) \div Channels(S)>> /\ res.si.md5 = [i \in 1..16 |-> i]
  /\ res.hasvc => res.vc = [vendor |-> <<118>>, comments |-> << [name |-> <<65>>, value |-> <<49>>], [name |-> <<97>>, value |-> <<>>] >>]
  /\ res.hasvc \/ res.vc.comments = <<>>

\* C14: blocks tile the time line.
Tiled == CallDone /\ ~lost /\ res.k = "block" /\ cid[2] # "bit" =>
           res.time = Digits(0, 4) \o Digits(passed \div Channels(S), 4)

\* C12: after an error nothing more comes from the iterator.
Fused == Idled /\ over /\ hist[Len(hist)][1] = "take" /\ was = nf => End.k # "err" /\ seen[2] = <<>>

\* C03: every call returns.
Returns == []<>(pc = "idle")

Complete2 == Idled /\ (lost \/ ~Opened \/ Calls = MaxCalls)
Printed == Emit /\ Complete2 =>
  PrintT("CASE " \o ToJson([ops |-> hist, bytes |-> B, faults |-> F]))
=============================================================================
