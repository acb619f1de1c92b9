------------------------------ MODULE GenCalls ------------------------------
(***************************************************************************)
(* Random call histories that the protocol allows.  The outcome of a call    *)
(* does not matter for what may be called next, except that a reader that    *)
(* was not opened is gone; the recorder stops there by itself.               *)
(***************************************************************************)
EXTENDS Protocol, Json, TLC

CONSTANTS Count, Handle     \* "none" or "bytes"

VARIABLES idx, calls
gvars == <<pvars, idx, calls>>

R(S) == RandomElement(S)
Pick(q) == q[R(1..Len(q))]

Names == CASE hold = "none" -> <<"open">>
           [] hold = "audio" -> <<"next", "next", "nextk", "nextk", "iter", "iter", "take", "itake", "empty", "inner">>
           [] hold = "info" -> <<"misuse", "misuse", "empty", "inner">>
           [] hold = "owned" -> <<"itake">>
           [] hold = "bytes" -> <<"next", "next", "next", "nextk", "nextk", "md", "mdh", "mdh", "mdi", "mdi", "mdi", "u8", "u8e", "into", "skip",
                                 "be16", "be16e", "be24", "be32", "le32", "bit", "unary", "leq8", "gt8", "leq16", "leq32", "sub", "sub">>
           [] OTHER -> <<>>
\* Runs of calls on one iterator tend to go on.
Next1(x) == IF run = "frames" /\ R(1..(3 + 0 * x)) > 1 THEN "nextk"
            ELSE IF run = "samples" /\ R(1..2) = 1 THEN "take"
            ELSE IF run = "blocks" /\ R(1..3) > 1 THEN "mdi"
            ELSE LET o == Pick(Names) IN IF o = "take" /\ run # "samples" THEN "iter" ELSE o

Buffers == <<"fresh", "keep", "new:0:0:0", "new:7:7:-1", "new:3:100:5", "new:4096:5000:77">>
Args(o) ==
  CASE o = "open" -> <<R(0..1), R(0..1), Pick(<<"-", "41,5449544c45,c3a9">>)>>
    [] o \in {"next", "nextk"} -> <<Pick(Buffers)>> \o (IF R(1..6) = 1 THEN <<"views">> ELSE <<>>)
    [] o \in {"iter", "take", "itake"} -> <<Pick(<<0, 1, 2, 3, 10, 100, 1000, 100000>>)>>
    [] o = "md" -> <<R(0..127), Pick(<<0, 1, 4, 8, 34, 40, 100, 5000, 16777215, 10485760, 10485761>>), "-">>
    [] o \in {"mdh", "mdi"} -> <<Pick(<<"-", "41,7a">>)>>
    [] o \in {"into", "skip"} -> <<Pick(<<0, 1, 2, 3, 5, 16, 100, 2048, 5000>>)>>
    [] o = "leq8" -> <<R(0..8)>> [] o = "gt8" -> <<R(9..16)>> [] o = "leq16" -> <<R(0..16)>> [] o = "leq32" -> <<R(0..32)>>
    [] o = "sub" -> <<R(1..32), Pick(<<1, 2, 15, 16, 33, 192, 4096, 65535>>)>>
    [] o = "misuse" -> <<Pick(<<"blocks", "samples">>)>>
    [] OTHER -> <<>>

Fresh == hold' = Handle /\ run' = "" /\ fused' = FALSE /\ used' = 0 /\ calls' = <<>>

Init == hold = Handle /\ run = "" /\ fused = FALSE /\ used = 0 /\ calls = <<>> /\ idx = 0
More ==
  /\ idx < Count /\ hold # "gone" /\ Len(calls) < 12
  /\ \E o \in {Next1(idx + Len(calls))} : \E a \in {Args(o)} :
       /\ Legal(o)
       /\ calls' = Append(calls, <<o>> \o a)
       /\ hold' = CASE o = "open" -> (IF a[1] = 1 THEN "info" ELSE "audio") [] o = "itake" -> "owned" [] o = "inner" -> "gone"
                    [] OTHER -> hold
       /\ run' = RunOf(o)
  /\ UNCHANGED <<fused, used, idx>>
Emit ==
  /\ idx < Count /\ calls # <<>>
  /\ (hold = "gone" \/ Len(calls) >= 3) = TRUE
  /\ PrintT("CASE " \o ToJson(calls))
  /\ idx' = idx + 1 /\ Fresh
\* One or the other, by chance: a walk, not a graph.
Step == \E go \in {IF hold = "gone" \/ Len(calls) >= 12 THEN FALSE ELSE IF Len(calls) < 3 THEN TRUE ELSE R(1..(6 + 0 * idx)) > 1} :
          IF go THEN More ELSE Emit
Spec == Init /\ [][Step]_gvars
=============================================================================
