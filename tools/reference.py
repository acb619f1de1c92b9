#!/usr/bin/env python3
"""Is the specification right?  Audio encoded by the reference encoder (where
`flac` is installed), and the repository's sample files, are decoded by the
specification and the code, and compared with the audio that went in and with
the reference decoder.  (For development; no check runs this.)"""
import os, random, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import Case

rng = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)


def audio(kind, n, ch, bits):
    top = 1 << bits - 1
    out = []
    for c in range(ch):
        v, row = rng.randrange(-top, top), []
        for t in range(n):
            if kind == "noise": v = rng.randrange(-top, top)
            elif kind == "walk": v = max(-top, min(top - 1, v + rng.randrange(-top // 50 - 2, top // 50 + 3)))
            elif kind == "const": pass
            elif kind == "square": v = top - 1 if (t // 7 + c) % 2 else -top
            elif kind == "wasted": v = rng.randrange(-top >> 3, top >> 3) << 3
            elif kind == "sine":
                import math
                v = int((top - 1) * math.sin(t * (0.03 + 0.01 * c)))
            row.append(v)
        out.append(row)
    if kind == "same" or rng.random() < .3:
        out = [list(out[0]) for _ in out]
    return out


def encode(d, pcm, bits, args):
    width = (bits + 7) // 8
    raw = b"".join((x << (width * 8 - bits) if False else x).to_bytes(width, "little", signed=True) for t in zip(*pcm) for x in t)
    p = os.path.join(d, "a.raw")
    open(p, "wb").write(raw)
    o = os.path.join(d, "a.flac")
    r = subprocess.run(["flac", "-f", "-s", "--force-raw-format", "--endian=little", "--sign=signed", "--channels=%d" % len(pcm),
                        "--bps=%d" % bits, "--sample-rate=%d" % rng.choice([8000, 44100, 48000, 96000, 11025, 12345]), "--lax",
                        "-o", o] + args + [p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        print(args, bits, len(pcm), r.stdout.decode()[-300:])
        return None
    return open(o, "rb").read()


def main():
    vlib.build_driver()
    cases, want = [], {}
    with tempfile.TemporaryDirectory() as d:
        for i in range(60):
            bits = rng.choice([8, 16, 24])
            ch = rng.choice([1, 2, 2, 2, 3, 5, 8])
            bs = rng.choice([16, 17, 192, 256, 500, 576, 1000, 1152])
            n = rng.choice([1, 15, 16, 100, bs, bs + 1, 2 * bs, 3 * bs - 1])
            kind = rng.choice(["noise", "walk", "const", "square", "wasted", "sine", "same"])
            args = ["-b", str(bs), "-" + str(rng.choice(range(9)))] + rng.choice([[], ["-e"], ["-p"], ["-l", "32"], ["-l", "0"], ["-r", "0,8"], ["-m"], ["-M"]])
            if "-m" in args and ch != 2 or "-M" in args and ch != 2:
                args = args[:3]
            pcm = audio(kind, n, ch, bits)
            b = encode(d, pcm, bits, args)
            if b is None:
                continue
            c = Case("r%d" % i, b, [["open", 0, 1, "-"]] + [["nextk", "keep"]] * ((n + bs - 1) // bs + 1))
            cases.append(c); want[c.id] = pcm
        samples = "/repo/testsamples"
        for f in sorted(os.listdir(samples)):
            if f.endswith(".flac"):
                b = open(os.path.join(samples, f), "rb").read()
                if len(b) < 400000:
                    cases.append(Case("file-" + f, b, [["open", 0, 1, "-"]] + [["nextk", "keep"]] * 3))
        res = vlib.run_driver(cases)
    bad = 0
    for c in cases:
        if c.id in want:
            got = [[] for _ in want[c.id]]
            for r in res[c.id][1:]:
                if r["k"] == "block":
                    for row, x in zip(got, r["chans"]): row += x
            if got != want[c.id]:
                bad += 1; print("code differs from the audio:", c.id, res[c.id][-1]["k"])
    v = vlib.validate([vlib.trace_record(c, res[c.id]) for c in cases], "FULL", consts=["Input <- CaseInput"])
    print(len(cases), "streams;", v.calls, "calls;", v.obligations, "compared;", "specification differs:", v.violations, "; audio differs:", bad)
    generated()
    vlib.cleanup()


def generated():
    """The other way round: generated frames through the reference decoder
    (which has a command line for 8, 16 and 24 bits only, and refuses predictors
    as long as the block, which Claxon takes)."""
    import stim
    same = differ = skipped = 0
    with tempfile.TemporaryDirectory() as d:
        for f in stim.frames("small", 400, rng.randrange(1000)):
            t = f["desc"]
            if t["bps"] % 8 or t["src"] > 11 or any(s["order"] >= t["bs"] for s in t["subs"] if s["ty"] in ("fixed", "lpc")):
                skipped += 1
                continue
            rate = [44100, 88200, 176400, 192000, 8000, 16000, 22050, 24000, 32000, 44100, 48000, 96000][t["src"]]
            nch = t["cha"] + 1 if t["cha"] < 8 else 2
            info = (16).to_bytes(2, "big") + (65535).to_bytes(2, "big") + bytes(6) + \
                (rate << 44 | nch - 1 << 41 | t["bps"] - 1 << 36).to_bytes(8, "big") + bytes(16)
            p, o = os.path.join(d, "g.flac"), os.path.join(d, "g.raw")
            open(p, "wb").write(b"fLaC\x80\0\0\x22" + info + bytes(f["bytes"]))
            open(o, "wb").close()
            r = subprocess.run(["flac", "-d", "-f", "-F", "-s", "--force-raw-format", "--endian=little", "--sign=signed", "-o", o, p],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            w = t["bps"] // 8
            raw = open(o, "rb").read()
            if [int.from_bytes(raw[i:i + w], "little", signed=True) for i in range(0, len(raw), w)] == [x for c in zip(*f["pcm"]) for x in c]:
                same += 1
            else:
                differ += 1
                print(t, r.stdout.decode()[-200:])
    print("generated frames decoded alike by the reference decoder: %d, not: %d (%d skipped)" % (same, differ, skipped))


main()
