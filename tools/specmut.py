#!/usr/bin/env python3
"""Do the properties stated in Client.tla say anything?  Each mistake below is
made in a copy of Flac.tla; the model has to fail.  (For development; no check
runs this.)"""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stim, vlib

N, D, C, T, U = (("none", 3, (1, 7, 33), 1), ("damage", 2, (33,), 13), ("cut", 2, (33,), 1), ("fault", 2, (7,), 3), ("faults", 3, (33,), 1))
MISTAKES = [
    ("frames are not checked", "IF Crc16(Slice(fr.start + 1, e)) # B[e + 1] * 256 + B[e + 2]", "IF FALSE", D),
    ("channels interleaved wrongly", "c[((i - 1) % nch) + 1][((i - 1) \\div nch) + 1]", "c[((i - 1) \\div bs) + 1][((i - 1) % bs) + 1]", N),
    ("rest of the block dropped", "!.need = 0, !.pend = SubSeq(@, n + 1, Len(@))]", "!.need = 0, !.pend = <<>>]", N),
    ("block served twice", "!.need = @ - n, !.pend = <<>>]", "!.need = @ - n]", N),
    ("time from own size", "THEN md.si.maxbs ELSE fr.bs", "THEN fr.bs ELSE fr.bs", N),
    ("number taken for time", "IF f.variable THEN f.num ELSE", "IF TRUE THEN f.num ELSE", N),
    ("errors become the end", "IF ~Have(1) /\\ StarveKind = \"eof\" THEN", "IF ~Have(1) THEN", T),
    ("one byte is nothing", "IF ~Have(1) /\\ StarveKind = \"eof\" THEN", "IF ~Have(2) /\\ StarveKind = \"eof\" THEN", C),
    ("obstacles stay", "/\\ nf' = IF nf < Len(F) THEN nf + 1 ELSE nf\n          /\\ Return(IoErr(StarveKind))", "/\\ nf' = nf\n          /\\ Return(IoErr(StarveKind))", U),
    ("error of another kind", "/\\ Return(IoErr(StarveKind))", "/\\ Return(IoErr(\"eof\"))", T),
    ("an error loses a byte", "Starve == /\\ ip' = Lim", "Starve == /\\ ip' = MinOf(Lim + 1, Len(B))", U),
    ("right side wrongly", "[i \\in 1..n |-> c[1][i] + c[2][i]]", "[i \\in 1..n |-> c[1][i] - c[2][i]]", N),
    ("mid forgets the odd bit", "mid(i) == 2 * c[1][i] + (c[2][i] % 2)", "mid(i) == 2 * c[1][i]", N),
    ("predictor wrong", "<<2, -1>>", "<<2, 1>>", N),
    ("side channel not wider", "THEN 1 ELSE 0)\n\nSubHeader", "THEN 0 ELSE 0)\n\nSubHeader", N),
    ("iterator lives on", "!.dead = (res.k = \"err\")", "!.dead = FALSE", U),
    ("samples lost on error", "res' = [k |-> \"samples\", got |-> it.got, wide", "res' = [k |-> \"samples\", got |-> <<>>, wide", C),
    ("metadata only reads on", "~Desired(m.only, m.want)", "~Desired(m.only, TRUE)", N),
    ("stops too early", "~Desired(m.only, m.want)", "~Desired(m.only, FALSE)", N),
    ("tags never kept", "hasvc |-> m.hasvc /\\ m.keep", "hasvc |-> FALSE", N),
    ("tags always kept", "hasvc |-> m.hasvc /\\ m.keep", "hasvc |-> m.hasvc", N),
    ("names cut short", "name |-> SubSeq(s, 1, eq - 1)", "name |-> SubSeq(s, 1, eq - 2)", N),
    ("rate of half a byte", "Be24(i + 10) \\div 16", "Be24(i + 10) \\div 8", N),
    ("hangs in metadata", "ELSE Consume(0) /\\ pc' = \"mhdr\"", "ELSE Consume(0) /\\ pc' = pc", N),
]


def main():
    base = vlib.SPEC
    bad = 0
    for what, old, new, (trouble, calls, takes, stride) in MISTAKES:
        d = tempfile.mkdtemp(prefix="specmut")
        for f in os.listdir(base):
            if f.endswith(".tla") and "TTrace" not in f:
                shutil.copy(os.path.join(base, f), d)
        p = os.path.join(d, "Flac.tla")
        s = open(p).read()
        assert s.count(old) == 1, what
        open(p, "w").write(s.replace(old, new))
        vlib.SPEC = d
        cfg = (stim.CLIENT % ("1, 2, 3, 4", trouble, calls, ", ".join(map(str, takes)), stride, 0)).replace("Emit = TRUE", "Emit = FALSE")
        r = vlib.tlc("Client", cfg)
        import re
        m = re.search(r"Invariant (\w+) is violated|(Temporal properties were violated)|(Temporal property .* violated)", r["out"])
        print("%-30s %s" % (what, m.group(0) if m else "MISSED" if r["code"] == 0 else "ERROR " + r["out"][-100:]), flush=True)
        bad += not m
        shutil.rmtree(d)
    vlib.cleanup()
    sys.exit(bad != 0)


main()
