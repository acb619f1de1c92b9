------------------------------ MODULE Protocol ------------------------------
(***************************************************************************)
(* The programming interface as a protocol: which calls a client may make,  *)
(* which outcomes they can have on a source of so many bytes -- whatever     *)
(* those bytes are -- and what an outcome means for later calls.            *)
(*                                                                         *)
(* The abstract state is small: which handle the client holds, and a lower  *)
(* bound for the number of bytes the calls so far must have consumed.  A    *)
(* panic, a crash or a call that does not return is never an outcome.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES
  hold,    \* what the client holds: "none", "audio" (a reader), "info" (one opened
           \* for metadata only), "bytes" (a byte reader), or nothing any more: "gone"
  run,     \* the run of calls on one iterator: "frames", "samples", "owned",
           \* "blocks", "bits", or "" if no iterator is held
  fused,   \* that iterator has ended for good
  used     \* bytes that must have been consumed

pvars == <<hold, run, fused, used>>

ByteReads == {"u8", "u8e", "into", "skip", "be16", "be16e", "be24", "be32", "le32"}
BitReads == {"bit", "unary", "leq8", "gt8", "leq16", "leq32", "sub"}

\* Calls a client may make.
Legal(o) ==
  CASE hold = "none" -> o = "open"
    [] hold = "audio" -> o \in {"next", "nextk", "iter", "inner", "empty"} \/ (o = "itake")
                         \/ (o = "take" /\ run = "samples")
    [] hold = "info" -> o \in {"misuse", "inner", "empty"}
    [] hold = "owned" -> o = "itake"
    [] hold = "bytes" -> o \in ByteReads \cup BitReads \cup {"next", "nextk", "md", "mdh", "mdi", "empty"}
    [] OTHER -> FALSE

Error(r) == r.k = "err" /\ r.cls \in {"io", "fmt", "unsup"}

\* The least number of bytes a frame, a block header can take.
MinFrame == 10
\* A frame with n channels: each has at least a subframe header and a sample.
FrameBytes(nch) == 8 + 2 * nch

\* The run a call belongs to.
RunOf(o) == CASE o = "nextk" -> "frames" [] o \in {"iter", "take"} -> "samples" [] o = "itake" -> "owned"
              [] o = "mdi" -> "blocks" [] o \in BitReads -> "bits" [] OTHER -> ""

\* Outcomes of a call, and what they consume at least.
Outcome(o, n, r) ==
  CASE o = "open" -> r.k = "opened" \/ Error(r)
    [] o \in {"next", "nextk"} -> \/ r.k = "none" \/ Error(r)
                                  \/ r.k = "block" /\ r.bs \in 1..65535 /\ r.nch \in 1..8 /\ r.n = r.bs * r.nch
                                     /\ r.len = r.n
    [] o \in {"iter", "take", "itake"} ->
         /\ r.k = "samples"
         /\ \/ r.end.k = "more" /\ r.n = n
            \/ r.end.k = "none" /\ r.n < n
            \/ Error(r.end) /\ r.n < n
         /\ fused /\ run = RunOf(o) /\ o # "iter" => r.n = 0 /\ r.end.k \in {"none", "more"} /\ (r.end.k = "more" => n = 0)
    [] o \in {"md", "mdh"} -> r.k = "meta" \/ Error(r)
    [] o = "mdi" -> IF run = "blocks" /\ fused THEN r.k = "none"
                    ELSE r.k \in {"meta", "none"} \/ Error(r)
    [] o \in {"u8e", "be16e"} -> r.k \in {"bytes", "none"} \/ (Error(r) /\ r.cls = "io")
    [] o \in ByteReads -> r.k = "bytes" \/ (Error(r) /\ r.cls = "io")
    [] o = "sub" -> r.k = "sub" \/ Error(r)
    [] o \in BitReads -> r.k = "bits" \/ (Error(r) /\ r.cls = "io")
    [] o = "misuse" -> r.k = "misuse" /\ r.refused
    [] o = "inner" -> r.k = "ok"
    [] o = "empty" -> r.k = "block" /\ r.n = 0 /\ r.bs = 0 /\ r.nch = 0

Consumed(o, r) ==
  CASE r.k = "opened" -> 42
    [] r.k = "block" /\ o # "empty" -> FrameBytes(r.nch)
    [] r.k = "meta" /\ o # "md" -> 4
    [] r.k = "bytes" /\ o # "skip" -> Len(r.v)
    \* at most 8 * 65535 samples come from one frame
    [] r.k = "samples" -> IF r.n > 8 * 65535 THEN MinFrame * (r.n \div (8 * 65535)) ELSE 0
    [] OTHER -> 0

\* An iterator over samples or blocks is over after an error; one over blocks
\* also after the last.  (The end of the input is not final for samples.)
Ends(o, r) == CASE o \in {"iter", "take", "itake"} -> r.end.k = "err"
                [] o = "mdi" -> r.k \in {"err", "none"}
                [] OTHER -> FALSE

\* The call o with argument n has outcome r.
PCall(o, n, r) ==
  /\ Legal(o)
  /\ Outcome(o, n, r)
  /\ hold' = CASE o = "open" -> IF r.k # "opened" THEN "gone" ELSE IF n = 1 THEN "info" ELSE "audio"
               [] o = "itake" -> "owned"
               [] o = "inner" -> "gone"
               [] OTHER -> hold
  /\ run' = RunOf(o)
  /\ fused' = (Ends(o, r) \/ (fused /\ run' = run /\ o # "iter" /\ run # ""))
  /\ used' = used + Consumed(o, r)
=============================================================================
