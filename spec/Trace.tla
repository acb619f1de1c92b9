------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validates recorded runs of the implementation against Flac.tla.         *)
(*                                                                         *)
(* A recorded run ("case") is a source and the list of API calls made with *)
(* what each returned.  There is one initial state per case; the decoder's *)
(* own actions compute the outcome of each call in turn, and Judge compares *)
(* it with the recorded one.  Which disagreements matter is a matter of the *)
(* property being decided (Obligations.tla); the first one of another kind *)
(* ends the examination of that case.                                      *)
(***************************************************************************)
EXTENDS Obligations, Json, TLC, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
CaseInput(c) == Cases[c]

VARIABLES
  l,        \* index of the call being examined
  from,     \* where the item (frame, block) being read began
  obl       \* number of calls whose obligation was enforced and met

tvars == <<vars, l, from, obl>>

Ops == Cases[cid].ops
Op  == Ops[l]
Obs == Op.res

---------------------------------------------------------------------------
Live == l <= Len(Ops)

\* A metadata block iterator ends after the last block, and after an error.
IteratorOver == l > 1 /\ Ops[l - 1].op = "mdi" /\ (md.last \/ res.k # "meta")

\* Calls that do not decode anything.
Instant(r) == Idle /\ pc' = "ret" /\ res' = r /\ UNCHANGED <<cid, ip, nf, fr, sf, md, it>>

StartOp ==
  CASE Op.op = "open" -> StartOpen(Op.only, Op.keep)
    [] Op.op \in {"next", "nextk"} -> StartNext
    [] Op.op \in {"take", "itake"} -> StartTake(Op.n, FALSE)
    [] Op.op = "iter" -> StartTake(Op.n, TRUE)
    [] Op.op = "mdh" -> StartBlockWithHeader
    [] Op.op = "mdi" -> IF IteratorOver THEN Instant(None) ELSE StartBlockWithHeader
    [] Op.op = "md" -> StartBlock(Op.ty, Op.len)
    [] Op.op = "sub" -> StartSub(Op.bps, Op.bs)
    [] Op.op \in {"misuse", "inner"} -> Instant([k |-> Op.op])
    [] Op.op = "u8e" ->                       \* the byte after the last item
         /\ Idle /\ pc' = "ret"
         /\ IF Have(1) THEN res' = [k |-> "bytes", v |-> <<Byte(1)>>] /\ ip' = ip + 1 /\ nf' = nf
            ELSE /\ ip' = Lim /\ nf' = IF nf < Len(F) THEN nf + 1 ELSE nf
                 /\ res' = IF StarveKind = "eof" THEN None ELSE IoErr(StarveKind)
         /\ UNCHANGED <<cid, fr, sf, md, it>>

Call == Live /\ StartOp /\ from' = ip /\ UNCHANGED <<l, obl>>

Work == /\ Live /\ ~CallDone /\ DecoderStep
        /\ from' = IF pc = "sync" THEN ip ELSE from
        /\ UNCHANGED <<l, obl>>

\* Whether the next recorded call can be judged after this one: the outcomes
\* agree, and they leave the source in a defined place.
Fused == l < Len(Ops) /\ Ops[l + 1].op = Op.op /\ Op.op \in {"take", "itake", "mdi"}
FusedIter == l < Len(Ops) /\ Ops[l + 1].op = "take" /\ Op.op = "iter"
Conclusive == /\ Full(res, Obs)
              /\ Ended(res) \/ (EndsIo(res) /\ ip # from) => Fused \/ FusedIter
              /\ (Op.op = "mdi" /\ res.k = "none" /\ \E j \in 1..(l - 1) : Ops[j].res.k = "err") => Fused

Judge ==
  /\ Live /\ CallDone
  /\ pc' = "idle"
  /\ obl' = IF Applies(res, Obs, Op) THEN obl + 1 ELSE obl
  /\ l' = IF Conclusive THEN l + 1 ELSE Len(Ops) + 1
  /\ UNCHANGED <<cid, ip, nf, fr, sf, md, it, res, from>>
  /\ l' > Len(Ops) => PrintT("OVER " \o Cases[cid].id \o " " \o ToString(obl') \o " " \o ToString(l))

TraceInit == /\ \E c \in 1..Len(Cases) : DecoderInit(c)
             /\ l = 1 /\ obl = 0 /\ from = 0

TraceNext == Call \/ Work \/ Judge

TraceSpec == TraceInit /\ [][TraceNext]_tvars

---------------------------------------------------------------------------
\* What an iterator over metadata blocks announced at its first call, and at the
\* last few, bounds the number of items that it has given since.
Announced ==
  (Prop \in {"C17", "FULL"} /\ Op.op = "mdi" /\ Obs.k \notin {"none", "panic", "hang", "crash"}) =>
     \A j \in {1} \union (MaxOf(1, l - 4)..l) :
        (\A m \in j..l : Ops[m].op = "mdi") => ("hi" \notin DOMAIN Ops[j].res \/ Ops[j].res.hi = -1 \/ Ops[j].res.hi >= l - j + 1)

\* Every recorded call satisfies the obligations of the property.
Conforms == Live /\ CallDone => Meets(res, Obs, Op) /\ Announced

\* Generated cases carry what was encoded: the specification itself must
\* decode it to that (otherwise encoder and decoder specification disagree).
RoundTrip ==
  Live /\ CallDone /\ "pcm" \in DOMAIN Op =>
    /\ res.k = "block" /\ res.chans = Op.pcm
    /\ "num" \in DOMAIN Op => fr.num = Op.num
    /\ "time" \in DOMAIN Op => res.time = Op.time

\* Sanity of the machine, evaluated in every state of every run.
Sane ==
  /\ ip \in 0..Len(B) /\ nf \in 0..Len(F)
  /\ nf < Len(F) => ip <= F[nf + 1].at
  /\ pc = "ret" => res.k # "pending"
  /\ res.k = "block" => Len(res.chans) \in {0, res.nch}

\* Runs are deterministic: their progress identifies their states, so that the
\* bulky values need not be compared.  (If two states of a run were taken for
\* one, it would not be examined to its end, which the caller checks.)
Progress == <<cid, l, pc, ip, nf, fr.bp, Len(fr.chans), sf.part, sf.left, sf.param, Len(sf.sam),
              md.len, md.count, md.left, Len(md.vc.comments), it.need, Len(it.got), Len(it.pend), res.k>>

\* What to report about a violation.
Brief(r) == IF "chans" \in DOMAIN r THEN [r EXCEPT !.chans = <<>>] ELSE
            IF "got" \in DOMAIN r THEN [r EXCEPT !.got = <<>>] ELSE r
Report == [id |-> Cases[cid].id, call |-> l, expected |-> ToString(Brief(res))]
=============================================================================
