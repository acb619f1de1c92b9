"""One function per property: which runs to record, and what decides them."""
import random
import stim, vlib
from stim import *
from vlib import Case

CONSTS = ["Input <- CaseInput"]


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random(seed * 7919 + int(prop[1:]))
        self.violations = []      # (case, result, report)
        self.stages = []          # what was explored, for the evidence
        self.samples = []

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # A stage: run the cases, have TLC validate the recorded runs.
    def trace(self, name, cases, prop=None, module="Trace", limit_ms=20000, record=vlib.trace_record, **kw):
        cases = list(cases)
        if not cases:
            raise vlib.ToolError("no cases in stage " + name)
        res, other = vlib.run_both(cases, limit_ms)
        for c in [vlib.plain(c) for c in cases if c.id in other]:
            cases.append(c)
            res[c.id] = other[c.id[:-len("~plain")]]
        recs = [record(c, res[c.id]) for c in cases]
        kw.setdefault("consts", CONSTS)
        v = vlib.validate(recs, prop or self.prop, module=module, **kw)
        byid = {c.id: c for c in cases}
        for cid, report in v.violations:
            self.violations.append((name, byid[cid], res[cid], report, dict(kw, module=module, prop=prop or self.prop)))
        st = {"stage": name, "spec": module, "runs": v.cases, "calls": v.calls, "obligations_checked": v.obligations,
              "runs_without_obligation": len(v.vacuous), "states": v.states, "distinct_states": v.distinct,
              "differing_builds": len(other), "outcomes": outcomes(res), "seconds": round(v.wall, 1)}
        self.stages.append(st)
        if not v.violations and v.obligations == 0:
            raise vlib.ToolError("vacuous stage " + name)
        for c in cases[:1] + cases[len(cases) // 2:len(cases) // 2 + 1]:
            self.samples.append({"stage": name, "script": clip(c.script()), "recorded": clip(str(res[c.id]))})
        return v, res

    def rel(self, name, groups, **kw):
        """Runs that have to be indistinguishable, validated side by side."""
        cases = []
        for i, g in enumerate(groups):
            for j, c in enumerate(g):
                c.id = "%d.%d" % (i, j)
                cases.append(c)
        res, other = vlib.run_both(cases)
        odd = {c.id.split(".")[0] for c in cases if c.id in other}
        groups = list(groups)
        for g in [groups[int(i)] for i in sorted(odd, key=int)]:
            groups.append([vlib.plain(c) for c in g])
            for c in g:
                res[c.id + "~plain"] = other.get(c.id, res[c.id])
        recs = [{"id": "%d" % i, "runs": [res[c.id] for c in g]} for i, g in enumerate(groups)]
        v = vlib.validate(recs, self.prop, **dict(REL, **kw))
        for gid, report in v.violations:
            g = groups[int(gid)]
            self.violations.append((name, g, [res[c.id] for c in g], report, dict(REL, prop=self.prop)))
        self.stages.append({"stage": name, "spec": "Rel", "groups": v.cases, "runs": len(cases), "calls": v.calls,
                            "obligations_checked": v.obligations, "states": v.states, "distinct_states": v.distinct,
                            "outcomes": outcomes(res), "seconds": round(v.wall, 1)})
        if not v.violations and v.obligations == 0:
            raise vlib.ToolError("vacuous stage " + name)
        for g in groups[:1] + groups[len(groups) // 2:len(groups) // 2 + 1]:
            self.samples.append({"stage": name, "scripts": [clip(c.script()) for c in g[:3]], "recorded": clip(str(res[g[0].id]))})

    def model(self, name, module, cfg, what, wrong=(), **kw):
        """An exhaustive model check of a specification on its own.  Each of the
        replacements in `wrong` (old text, new text) must make it fail."""
        r = vlib.tlc(module, cfg, **kw)
        if r["code"] != 0:
            raise vlib.ToolError("model %s fails:\n%s" % (name, r["out"][-3000:]))
        for a, b in wrong:
            assert a in cfg
            w = vlib.tlc(module, cfg.replace(a, b), **kw)
            if "is violated" not in w["out"] and "was violated" not in w["out"]:
                raise vlib.ToolError("model %s does not fail with %s:\n%s" % (name, b, w["out"][-3000:]))
        self.stages.append({"stage": name, "spec": module, "model_checked": what, "mistakes_found": [b for a, b in wrong],
                            "states": r["states"], "distinct_states": r["distinct"], "seconds": round(r["wall"], 1)})
        return r


    def client(self, name, trouble, calls, takes, stride, **kw):
        """All histories of a few calls on small streams: the properties hold on
        the model, and the code does what the model does."""
        cases, r = clients(trouble, calls, takes, stride, self.seed, **kw)
        self.stages.append({"stage": "model: " + name, "spec": "Client", "model_checked":
                            "all histories of up to %d calls (taking %s samples) on 4 small streams, trouble: %s, every %d-th source"
                            % (calls, takes, trouble, stride),
                            "states": r["states"], "distinct_states": r["distinct"], "seconds": round(r["wall"], 1)})
        return self.trace(name, cases)


    def small(self, name, family, stride, parts=1):
        """Small subframes, all of them (in parts, for the sake of memory)."""
        for k in range(parts):
            part = " %d of %d" % (k + 1, parts) if parts > 1 else ""
            cases, r = small(family, stride * parts, self.seed % stride + k * stride)
            self.stages.append({"stage": "model: " + name + part, "spec": "Small", "model_checked": "every %d-th" % (stride * parts),
                                "states": r["states"], "distinct_states": r["distinct"], "seconds": round(r["wall"], 1)})
            self.trace(name + part, cases)


def clip(s, n=600):
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


def outcomes(res):
    out = {}
    for r in res.values():
        for x in r:
            k = x["k"] + (":" + x["cls"] if x["k"] == "err" else "")
            if x["k"] == "samples" and "end" in x:
                k += ":" + x["end"]["k"]
            out[k] = out.get(k, 0) + 1
    return out


# ------------------------------------------------------------------ properties

def c01(x):
    fs = frames("mix", x.n(480, 3200), x.seed)
    x.trace("frames of all kinds", [frame_case("f%d" % i, f, kind=["buf", "cur", "mbuf", "mcur"][i % 4])
                                    for i, f in enumerate(fs)])
    for name, profile, count in (("linear prediction at the edges", "numeric", x.n(448, 3200)), ("pairs in stereo", "pairs", x.n(36, 60)),
                                 ("long unary codes", "quot", x.n(96, 384)), ("partitions", "part", x.n(64, 320)),
                                 ("wasted bits of every number", "waste", x.n(520, 2080)), ("the most partitions", "vast", x.n(6, 12)),
                                 ("partition orders", "order", x.n(112, 840)),
                                 ("long frames", "long", x.n(8, 64))):
        fs = frames(profile, count, x.seed, lanes=8 if count > 6 else 3)
        x.trace(name, [frame_case("%s%d" % (profile, i), f) for i, f in enumerate(fs)])
    # Every combination of header codes, and valid corner cases of subframes.
    hs = hostile({"codes": x.n(23, 1), "code1": 2, "code2": 2, "number": x.n(11, 1), "value": x.n(3, 1), "size": 1, "subtype": 2, "wasted": 1, "rice": 1,
                  "porder": 2, "lpc": x.n(4, 1), "order": 1}, x.seed)
    x.trace("enumerated codings", [Case("%s-%d" % (f, g["n"]), bytes(g["bytes"]), [["next", "fresh"]], kind="buf",
                                        tag=g["tag"]) for f, g in hs])
    x.small("all small subframes", "valid", x.n(53, 1), x.n(1, 8))


def checksums(b, h):
    """A frame (with a header of h bytes) with all kinds of wrong checksums."""
    out = []
    crc = int.from_bytes(b[-2:], "big")
    for name, c in (("swap", (crc >> 8 | crc << 8) & 0xffff), ("zero", 0), ("ones", 0xffff), ("inv", crc ^ 0xffff),
                    ("noheader", crc16(b[h:-2])), ("nocrc8", crc16(b[:h - 1] + b[h:-2])), ("self", crc16(b)),
                    ("short", crc16(b[:-3])), ("hi", crc ^ 0x8000), ("lo", crc ^ 1), ("hibyte", crc ^ 0x5a00), ("lobyte", crc ^ 0xa5)):
        out.append(("foot-" + name, b[:-2] + c.to_bytes(2, "big")))
    for name, c in (("inv", b[h - 1] ^ 255), ("zero", 0), ("self", crc8(b[:h])), ("short", crc8(b[:h - 2])), ("hi", b[h - 1] ^ 128), ("lo", b[h - 1] ^ 1)):
        y = b[:h - 1] + bytes([c]) + b[h:]
        out.append(("crc8-" + name, y))
        out.append(("crc8f-" + name, fix_footer(y)))
    return out


def damaged(x, fs):
    """Frames with damage of many kinds."""
    for i, f in enumerate(fs):
        out = []
        b = bytes(f["bytes"])
        h = f["hdrlen"]
        bits = list(range(len(b) * 8))
        if len(bits) > x.n(700, 4000):
            bits = sorted(set(range(h * 8)) | set(range(len(b) * 8 - 24, len(b) * 8)) | set(x.rng.sample(bits, x.n(250, 2000))))
        for t in bits:
            out.append(("flip%d" % t, flip(b, t)))
        # header damage hidden by a right CRC-8, footer left alone
        for t in x.rng.sample(range((h - 1) * 8), min(24, (h - 1) * 8)):
            out.append(("hdr%d" % t, fix_header(flip(b, t), h)))
            out.append(("hdrf%d" % t, fix_footer(fix_header(flip(b, t), h))))
        # damage to the body with a right footer: not the checksum's business
        for t in x.rng.sample(range(h * 8, len(b) * 8 - 16), min(16, (len(b) - h - 2) * 8)):
            out.append(("body%d" % t, fix_footer(flip(b, t))))
        out += checksums(b, h)
        out.append(("cut", b[:-1]))
        # bytes swapped, lost, doubled
        for _ in range(4):
            k = x.rng.randrange(len(b) - 1)
            out.append(("swap%d" % k, b[:k] + b[k + 1:k + 2] + b[k:k + 1] + b[k + 2:]))
            out.append(("drop%d" % k, b[:k] + b[k + 1:] + b"\0"))
            out.append(("dup%d" % k, b[:k] + b[k:k + 1] + b[k:]))
        for n, y in out:
            yield "%d:%s" % (i, n), y


def headers(x, per):
    """Frames of constants, with every pair of block size and sample rate codes
    and all kinds of values in the fields they call for: (name, head, body)."""
    r = x.rng
    widths = {1: 8, 2: 12, 4: 16, 5: 20, 6: 24}
    for bs in range(1, 16):
        for sr in range(15):
            for j in range(per):
                n8 = {6: 1, 7: 2}.get(bs, 0)
                e8 = {12: 1, 13: 2, 14: 2}.get(sr, 0)
                size = r.choice([0, 0, 1, 15, r.randrange(256)]) if n8 == 1 else \
                    r.choice([0, 15, 256, r.randrange(4096)]) if n8 else 0
                rate = r.choice([0, 0, 1, 10, 256 ** e8 - 1, r.randrange(256 ** max(1, e8))]) if e8 else 0
                ch = r.choice([0, 1, 8, 9, 10]) if bs > 8 else r.randrange(11)
                w = r.choice(sorted(widths))
                k = r.choice([0, 0, 1, 2, 3, 4, 5, 6])
                num = bytes([r.randrange(128)]) if k == 0 else \
                    bytes([(0xff00 >> k + 1) & 0xff | r.randrange(1 << 6 - k)]) + bytes([128 | r.randrange(64) for _ in range(k)])
                h = bytes([255, 0xf8 | r.randrange(2), bs << 4 | sr, ch << 4 | w << 1]) + num + size.to_bytes(n8, "big") + rate.to_bytes(e8, "big")
                bits = ""
                for c in range(2 if ch > 7 else ch + 1):
                    d = widths[w] + (1 if (ch in (8, 10) and c == 1) or (ch == 9 and c == 0) else 0)
                    bits += "00000000" + format(r.randrange(1 << d), "0%db" % d)
                bits += "0" * (-len(bits) % 8)
                yield "%d-%d-%d" % (bs, sr, j), h, int(bits, 2).to_bytes(len(bits) // 8, "big")


def constants(bs, mode):
    """A frame of constant subframes of 16 bits each, 17 for the side channel."""
    h = b"\xff\xf9\x70" + bytes([mode << 4 | 8]) + b"\x07" + (bs - 1).to_bytes(2, "big")
    h += bytes([crc8(h)])
    bits = ""
    for c in range(mode + 1 if mode < 8 else 2):
        w = 17 if (mode in (8, 10) and c == 1) or (mode == 9 and c == 0) else 16
        bits += "00000000" + format((c * 4099 + 77) % (1 << w), "0%db" % w)
    bits += "0" * (-len(bits) % 8)
    return footed(h + int(bits, 2).to_bytes(len(bits) // 8, "big"))


def numbered(bs, mode, number, variable):
    """A frame of constants with a number."""
    if number < 128:
        num = bytes([number])
    else:
        k = next(k for k in range(1, 7) if number < 1 << 5 * k + 6)
        num = bytes([(0xff00 >> k + 1) & 0xff | number >> 6 * k]) + bytes([128 | number >> 6 * (k - 1 - j) & 63 for j in range(k)])
    h = bytes([0xff, 0xf9 if variable else 0xf8, 0x70, mode << 4 | 8]) + num + (bs - 1).to_bytes(2, "big")
    h += bytes([crc8(h)])
    nch = mode + 1 if mode < 8 else 2
    bits = "".join("00000000" + format((c * 99 + bs) % 30000, "017b" if mode == 8 and c else "016b") for c in range(nch))
    bits += "0" * (-len(bits) % 8)
    return footed(h + int(bits, 2).to_bytes(len(bits) // 8, "big"))


def footed(b):
    return b + crc16(b).to_bytes(2, "big")


def c02(x):
    fs = frames("small", x.n(12, 80), x.seed)
    fs.sort(key=lambda f: len(f["bytes"]))
    fs = fs[:x.n(9, 70)]
    seen, cases = set(), []
    for n, b in damaged(x, fs):
        if n not in seen:
            seen.add(n)
            k = ["buf", "cur"][len(cases) % 2]
            cases.append(Case(n, b, [["next", "fresh"]], kind=k))
    x.trace("damaged frames", cases)
    ok = frames("mix", x.n(80, 800), x.seed + 1)
    x.trace("intact frames", [frame_case("f%d" % i, f) for i, f in enumerate(ok)])
    x.trace("the last bytes missing", cut_short(x))
    cases = []
    for i, (n, h, body) in enumerate(headers(x, x.n(4, 16))):
        c = crc8(h)
        wrong = x.rng.choice([c ^ 1 << i % 8, 0, 255, c ^ x.rng.randrange(1, 256)])
        good = footed(h + bytes([c]) + body)
        tests = [("h", footed(h + bytes([wrong]) + body)),
                 ("f", x.rng.choice([flip(good, len(good) * 8 - 1 - i % 16), good[:-2] + b"\0\0", good[:-2] + b"\xff\xff"]))]
        if i % 4 == 0:
            tests.append(("ok", good))
        for t, y in tests:
            cases.append(Case("%s-%s" % (n, t), y, [["next", "fresh"]], kind=["buf", "cur"][i % 2]))
    x.trace("all kinds of headers", cases)
    ss = streams("stream", x.n(8, 40), x.seed)
    cases = []
    for i, s in enumerate(ss):
        b, at = stream_bytes(s), len(section(s["meta"]))
        for j in range(x.n(30, 100)):
            y = flip(b, x.rng.randrange(at * 8, len(b) * 8))
            cases.append(Case("s%d-%d" % (i, j), y, [["open", 0, 1, "-"]] + ([["nextk", "keep"]] if j % 2 else [["itake", 40]]) * 6))
    # Each frame of a stream with wrong checksums; also a fixed one whose last frame is short.
    for i, s in enumerate(streams("stream", x.n(10, 60), x.seed + 1) + streams("blocks", x.n(6, 30), x.seed)):
        b, ends = stream_bytes(s), frame_ends(s)
        for k, f in enumerate(s["frames"]):
            if k not in (0, len(s["frames"]) - 1) and not x.thorough:
                continue
            for n, y in checksums(bytes(f["bytes"]), f["hdrlen"]):
                ops = [OPEN] + ([["nextk", "keep"]] * (k + 2) if (i + k) % 2 else [["itake", 100000]])
                cases.append(Case("c%d-%d-%s" % (i, k, n), b[:ends[k]] + y + b[ends[k + 1]:], ops))
    x.trace("damaged streams", cases)
    x.client("small streams with one wrong bit", "damage", x.n(2, 3), [33], x.n(13, 1))


def cut_short(x):
    """Small frames, of one sample too, without their last few bytes: alone, after
    another one, and as the last of a stream."""
    cases = []
    for i in range(x.n(60, 400)):
        bs = [1, 2, 16, 192][i % 4] if i % 3 else 1
        f = numbered(bs, [0, 1, 8, 9, 10, 7][i // 4 % 6], x.rng.choice([0, 1, 7, 127, 128, 5000]), i % 2)
        g = numbered(bs, 0, 3, i % 2)
        for k in (1, 2, 3, 4):
            cut = f[:-k]
            fault = ["eof", fault_kind(i)][k % 2]
            ops = [[["next", "nextk"][i % 2], "fresh"]]
            cases.append(Case("t%d-%d" % (i, k), cut, ops, kind=BYTE_KINDS[(i + k) % 4]))
            cases.append(Case("g%d-%d" % (i, k), g + cut, ops * 2, kind=BYTE_KINDS[(i + k + 1) % 4]))
            cases.append(Case("x%d-%d" % (i, k), g + f, ops * 2, kind=["buf", "mbuf"][i % 2], faults=[(len(g) + len(cut), fault)]))
            cases.append(Case("s%d-%d" % (i, k), section([good_si(x)]) + g + cut,
                              [OPEN] + [ops * 2, [["itake", 5 * bs]] * 2, [["iter", 10000], ["take", 5]]][k % 3]))
    return cases


OPEN = ["open", 0, 1, "-"]
BYTE_KINDS = ["buf", "cur", "mbuf", "mcur"]


def frame_ends(s):
    """Offsets of the audio and of the end of each frame."""
    at = [len(section(s["meta"]))]
    for f in s["frames"]:
        at.append(at[-1] + len(f["bytes"]))
    return at


def c05(x):
    ss = streams("stream", x.n(24, 120), x.seed)
    ss.sort(key=lambda s: len(stream_bytes(s)))
    cases = []
    # Every position at which the source can end or fail, in small streams.
    small = [s for s in ss if 2 <= len(s["frames"]) <= 3][:x.n(2, 12)]
    for i, s in enumerate(small):
        b = stream_bytes(s)
        a = len(section(s["meta"]))
        nf = len(s["frames"])
        nb = len(s["meta"])
        each = {"o": ("flac", 0, [OPEN] + [["next", "fresh"]] * (nf + 1)),
                "i": ("flac", 0, [OPEN, ["itake", 7]] + [["itake", 400]] * 3),
                "k": ("buf", a, [["nextk", "keep"]] * (nf + 1)),
                "m": ("buf", 4, [["mdi", "-"]] * (nb + 1) + [["next", "fresh"]] * (nf + 1)),
                "c": ("cur", 4, [["mdh", "-"]] * nb + [["next", "fresh"]] * (nf + 1))}
        for w, (kind, off, ops) in sorted(each.items()):
            d = b[off:]
            # the source with its audio cut off early is of no use to "m" and "c"
            top = len(d) if w in "oik" else a - off
            for p in range(0, top + 1):
                how = (p + i) % 3 if not x.thorough else -1
                if how in (0, -1) and p < len(d):
                    cases.append(Case("%d%s-cut%d" % (i, w, p), d[:p], ops, kind=kind))
                if kind != "cur" and how in (1, -1):
                    cases.append(Case("%d%s-fault%d" % (i, w, p), d, ops, kind=kind, faults=[(p, fault_kind(p))]))
                if kind != "cur" and how in (2, -1):
                    cases.append(Case("%d%s-eof%d" % (i, w, p), d, ops, kind=kind, faults=[(p, "eof")]))
    x.trace("every position of small streams", cases)
    cases = []
    for i, s in enumerate(ss):
        b = stream_bytes(s)
        for j in range(x.n(12, 60)):
            p = x.rng.choice(frame_ends(s)) if j % 4 == 0 else x.rng.randrange(len(b))
            ops = [OPEN] + ([["next", "fresh"]] * 7 if j % 2 else [["itake", x.rng.randrange(1, 500)] for _ in range(6)])
            f = [(p, "eof" if x.rng.random() < .3 else fault_kind(j))]
            if j % 3 == 0:
                cases.append(Case("r%d-%d" % (i, j), b[:p], ops))
            else:
                cases.append(Case("r%d-%d" % (i, j), b, ops, faults=f, chunks=[x.rng.randrange(1, 60)] if j % 3 == 1 else []))
    x.trace("streams cut or failing anywhere", cases)
    # Long frames: positions around the size of the reader's buffer.
    cases = []
    for i, f in enumerate(frames("long", x.n(4, 16), x.seed, lanes=4)):
        b = bytes(f["bytes"])
        for j in range(x.n(6, 16)):
            p = min(len(b), x.rng.choice([2047, 2048, 2049, 4096, 6144]) if j % 3 == 0 else x.rng.randrange(len(b)))
            if j % 2:
                cases.append(Case("l%d-%d" % (i, j), b[:p], [["next", "fresh"]], kind=x.rng.choice(["buf", "cur"])))
            else:
                cases.append(Case("l%d-%d" % (i, j), b, [["next", "fresh"]], kind="buf", faults=[(p, fault_kind(j))]))
    x.trace("long frames", cases)
    # Small frames without their last bytes; one byte too many after the last.
    cases = cut_short(x)
    for v in range(256):
        f = numbered([1, 16][v % 2], v % 3 % 2, v % 128, v // 2 % 2)
        d = section([good_si(x)]) + f + bytes([v])
        cases.append(Case("v%d" % v, d, [OPEN] + ([["nextk", "keep"]] * 3 if v % 3 else [["itake", 100]] * 2)))
        cases.append(Case("w%d" % v, f + bytes([v]), [["next", "keep"]] * 2, kind=BYTE_KINDS[v // 3 % 4]))
    x.trace("odd ends", cases)
    # Every kind of trouble at every place that matters in the metadata.
    cases = []
    si, i = good_si(x), 0
    vc = [g["blocks"][0] for f, g in metas(["vcrand"], 40, x.seed) if g["blocks"][0]["len"] < 90][:x.n(3, 12)]
    for j, c in enumerate(vc):
        some = [{"ty": t, "len": n, "body": list(range(n))} for t, n in ((1, 3), (2, 9), (6, 0), (3, 5))]
        for w, bl in enumerate(([si, c] + some[:2], [si, some[j % 4], c, some[2]], [si, c, c], [si] + some)):
            b = section(bl)
            ends, at = [4], 4
            for y in bl:
                at += 4 + len(y["body"])
                ends += [at - len(y["body"]), at]
            for e in sorted(set(p + d for p in ends for d in (-1, 0, 1) if 0 <= p + d < len(b))):
                for kind in ["eof"] + KINDS:
                    i += 1
                    if x.thorough or i % 2 or e in ends:
                        cases.append(Case("m%d" % i, b, [["open", i % 3 // 2, 1 - i % 5 // 4, "-"]], faults=[(e, kind if kind == "eof" else "%s#%d" % (kind, i))]))
                    if i % 8 == 0 and e >= 4:
                        cases.append(Case("i%d" % i, b[4:], [["mdi", "-"]] * (len(bl) + 1), kind=["buf", "mbuf"][i // 8 % 2],
                                          faults=[(e - 4, kind if kind == "eof" else "%s#%d" % (kind, i))]))
    x.trace("every kind of trouble in metadata", cases)
    x.client("small streams cut anywhere", "cut", x.n(2, 3), [33], x.n(3, 1))
    x.client("small streams failing anywhere", "fault", x.n(2, 3), [33], x.n(9, 1))


COMBOS = [(0, 1), (0, 0), (1, 1), (1, 0)]
GOOD = None


def good_si(x):
    global GOOD
    if GOOD is None:
        GOOD = [g for f, g in metas(["seq"], 1, x.seed) if g["n"] == 0][0]["blocks"][0]
    return GOOD


def c07(x):
    gs = metas(["si", "sirand", "silen"], x.n(300, 6000), x.seed)
    cases = []
    for k, (f, g) in enumerate(gs):
        bl = g["blocks"]
        only, keep = COMBOS[k % 4]
        body = bytes(bl[0]["body"])
        t = {"tag": g["tag"]}
        name = "%s-%d" % (f, g["n"])
        cases.append(Case(name + "-o", section(bl), [["open", only, keep, "-"]], **t))
        w = k % 3
        if w == 0:
            cases.append(Case(name + "-i", section(bl, False), [["mdi", "-"], ["mdi", "-"], ["u8e"]], kind=BYTE_KINDS[k % 4], **t))
        elif w == 1:
            cases.append(Case(name + "-m", body, [["md", 0, bl[0]["len"], "-"], ["u8e"]], kind=BYTE_KINDS[k % 4], **t))
        else:
            cases.append(Case(name + "-h", section(bl, False), [["mdh", "-"], ["u8e"]], kind=BYTE_KINDS[k % 4], **t))
    x.trace("stream info blocks", cases)
    cases = []
    for i, s in enumerate(streams("stream", x.n(24, 200), x.seed)):
        only, keep = COMBOS[i % 4]
        cases.append(Case("s%d" % i, stream_bytes(s), [["open", only, keep, "-"]], kind=["flac", "file"][i % 2]))
    x.trace("stream info of streams", cases)


def c08(x):
    gs = metas(["vcrand", "vcbytes", "vcutf8", "vclen", "vchuge", "vcshort", "vcnames", "vclong", "vcmany", "vcplace", "vctail", "vcvalue"], x.n(1200, 8000), x.seed,
               {"vcplace": x.n(7, 1)})
    si = good_si(x)
    cases = []
    for k, (f, g) in enumerate(gs):
        bl = g["blocks"]
        nd = needles(g)
        t = {"tag": g["tag"]}
        name = "%s-%d" % (f, g["n"])
        only, keep = [(0, 1), (1, 1), (0, 0), (0, 1)][k % 4]
        cases.append(Case(name + "-o", section([si] + bl), [["open", only, keep, nd]], **t))
        w = (k // 4) % 3
        if w == 0 or x.thorough:
            cases.append(Case(name + "-i", section(bl, False), [["mdi", nd], ["mdi", nd], ["u8e"]], kind=BYTE_KINDS[k % 4], **t))
        if w == 1 or x.thorough:
            cases.append(Case(name + "-m", bytes(bl[0]["body"]), [["md", 4, bl[0]["len"], nd], ["u8e"]], kind=BYTE_KINDS[k % 4], **t))
        if w == 2 or x.thorough:
            cases.append(Case(name + "-h", section(bl, False), [["mdh", nd], ["u8e"]], kind=BYTE_KINDS[k % 4], **t))
    x.trace("comment blocks", cases)
    # Damaged blocks: every byte replaced, in a few.
    cases = []
    some = [g for f, g in gs if f == "vcrand" and 20 < g["blocks"][0]["len"] < 160][:x.n(3, 30)]
    for i, g in enumerate(some):
        b = bytes(g["blocks"][0]["body"])
        for p in range(len(b)):
            for v in (b[p] ^ 0x80, b[p] ^ 1, b[p] ^ 0x20, x.rng.randrange(256))[:x.n(2, 4)]:
                y = b[:p] + bytes([v]) + b[p + 1:]
                cases.append(Case("d%d-%d-%d" % (i, p, v), y, [["md", 4, len(b), needles(g)]], kind=["buf", "cur"][p % 2]))
        for p in range(len(b)):
            cases.append(Case("t%d-%d" % (i, p), section([si, {"ty": 4, "len": p, "body": list(b[:p])}]), [["open", 0, 1, needles(g)]]))
    x.trace("damaged comment blocks", {c.id: c for c in cases}.values())


def c09(x):
    gs = metas(["seq", "seqrand"], x.n(60, 600), x.seed, {"seq": x.n(2, 1)})
    tail = bytes(frames("small", 1, x.seed)[0]["bytes"])
    cases = []
    for k, (f, g) in enumerate(gs):
        for j, (only, keep) in enumerate(COMBOS):
            ops = [["open", only, keep, "-"]]
            if only:
                ops += [["misuse", ["blocks", "samples"][k % 2]]] * (k % 3 > 0)
            else:
                ops += [["next", "fresh"]] * 2
            cases.append(Case("%s-%d-%d" % (f, g["n"], j), section(g["blocks"]) + tail, ops, tag=g["tag"],
                              kind="flac" if (k + j) % 5 else "file"))
            # With the metadata-only option nothing after the last desired block
            # may be needed: cut there, or let the source fail.
            if only:
                b = section(g["blocks"])
                p, ends = 4, []
                for bl in g["blocks"]:
                    p += 4 + len(bl["body"])
                    ends.append(p)
                for e in set(ends[:3]):
                    cases.append(Case("%s-%d-%d-e%d" % (f, g["n"], j, e), b, ops[:1], faults=[(e, "other#%d" % e)]))
    x.trace("block sequences", cases)
    cases = []
    for i, s in enumerate(streams("stream", x.n(20, 200), x.seed)):
        for j, (only, keep) in enumerate(COMBOS):
            ops = [["open", only, keep, "-"]] + ([["misuse", "samples"]] if only else [["next", "keep"]] * (len(s["frames"]) + 1))
            cases.append(Case("s%d-%d" % (i, j), stream_bytes(s), ops))
    # Blocks longer than any buffer.
    si, pad = good_si(x), [0] * 4
    for i, n in enumerate([2047, 2048, 2049, 4096, 6150, 65535, 65536, 65537, 70001] + ([200000, 1 << 20] if x.thorough else [])):
        ty = [1, 3, 5, 6, 9][i % 5]
        body = [x.rng.randrange(256) for _ in range(n)]
        big = {"ty": ty, "len": n, "body": body}
        cases.append(Case("big%d" % i, section([si, big]) + tail, [OPEN, ["next", "fresh"], ["next", "fresh"]]))
        cases.append(Case("bigi%d" % i, section([big, si], False) + tail, [["mdi", "-"]] * 3 + [["next", "fresh"]], kind=BYTE_KINDS[i % 4]))
    # Blocks as long as can be; what they hold is only skipped over.
    last = {"ty": 5, "len": 2, "body": [1, 255]}
    for i, n in enumerate([0xffff, 0x10000, 0x10001, 0x7fffff, 0x800000, 0x800001, 0xfeffff, 0xff0000, 0xff0001, 0xfffe00, 0xfffffe, 0xffffff] * x.n(2, 10)):
        ty, k = [1, 3, 5, 6, 9, 126, 64][i % 7], x.rng.randrange(1, 4)
        big = [bytes([ty]) + n.to_bytes(3, "big") + bytes(range(1, k + 1)), (n - k - 5, x.rng.randrange(256), "hole"), b"\xff\xf8abc"]
        ch, faults = [[], [2048], [65536, 1], [3000]][i % 4], []
        head = section([si, last])[:-6]     # the stream info, and not the last one
        total = len(head) + 4 + n
        if i % 3 == 2:
            faults = [(x.rng.choice([total, total - 2, total + 5]), x.rng.choice(["eof", fault_kind(i)]))]
        cases.append(Case("huge%d" % i, [head] + big + [section([last], False) + tail], [OPEN, ["next", "fresh"], ["next", "fresh"]],
                          chunks=ch, faults=faults))
        one = big + [section([last], False) + tail]
        cases.append(Case("hugei%d" % i, one, [["mdi", "-"]] * 3 + [["next", "fresh"]], kind=BYTE_KINDS[i % 4]))
        cases.append(Case("hugeh%d" % i, one, [["mdh", "-"]] * 2 + [["next", "fresh"]], kind=BYTE_KINDS[(i + 1) % 4]))
    # Not a FLAC stream.
    b = section([si]) + tail
    for i in range(32):
        cases.append(Case("magic%d" % i, flip(b, i), [OPEN, ["next", "fresh"]]))
    for i, m in enumerate((b"ID3\x04", b"OggS", b"fLac", b"FLAC", b"CaLf", b"\0fLaC", b"fLa", b"fL", b"f", b"", b"RIFF", b"ID3")):
        cases.append(Case("mark%d" % i, m + b[4:], [OPEN]))
        cases.append(Case("only%d" % i, m, [OPEN]))
    x.trace("streams", cases)
    x.client("small streams opened in every way", "none", x.n(2, 3), [1], 1)


def c10(x):
    cases = []
    M = 10485760
    lens = [0, 4, 8, 4096, 1 << 20, M - 1, M, M + 1, M + 4, 1 << 24 - 1, (1 << 24) - 1, 3 * M // 2]
    for i, n in enumerate(lens):
        head = n.to_bytes(3, "big")
        for ty in (2, 4, 0, 1, 3, 6, 50, 127):
            for j, body in enumerate((b"", b"\0" * 8, b"\x03\0\0\0abc\xff\xff\x0f\0" + b"\0" * 20,
                                      b"\0\0\0\0" + (max(0, n // 4 - 1)).to_bytes(4, "little") + b"\0" * 40,
                                      b"\0\0\0\0" + (n // 4).to_bytes(4, "little") + b"\0" * 40,
                                      max(0, n - 8).to_bytes(4, "little") + b"\0" * 8,
                                      b"\0\0\0\0\1\0\0\0" + max(0, n - 12).to_bytes(4, "little") + b"A=" + b"b" * 20,
                                      b"\0\0\0\0\1\0\0\0" + max(0, n - 8).to_bytes(4, "little") + b"A=" + b"b" * 20,
                                      b"\0\0\0\0\xff\xff\xff\x7f" + b"\0" * 40, b"\xff\xff\xff\xff" + b"\0" * 40)):
                if ty not in (2, 4) and j > 1:
                    continue
                name = "%d-%d-%d" % (i, ty, j)
                k = (i + j) % 3
                cases.append(Case("m" + name, body, [["md", ty, n, "-"]], kind=BYTE_KINDS[(i + j) % 4]))
                if k == 0:
                    cases.append(Case("h" + name, bytes([ty]) + head + body, [["mdh", "-"]], kind="buf"))
                elif k == 1:
                    cases.append(Case("i" + name, bytes([ty]) + head + body, [["mdi", "-"], ["mdi", "-"]], kind="buf"))
                if ty in (2, 4):
                    cases.append(Case("o" + name, section([good_si(x)]) [:4] + bytes([0]) + section([good_si(x)])[5:] +
                                      bytes([128 + ty]) + head + body, [["open", k % 2, 1 - j % 2, "-"]]))
    # lengths no header can express, for readers of containers
    for i, n in enumerate([1 << 24, 1 << 28, (1 << 30) - 1, 1 << 30, (1 << 31) - 1]):
        for ty in (2, 4):
            cases.append(Case("w%d-%d" % (i, ty), b"\0" * 64, [["md", ty, n, "-"]], kind=BYTE_KINDS[i % 4]))
    # Many comments, and large ones, all of them there.
    for i, (k, m) in enumerate([(60, 500), (100, 500), (300, 200), (300, 600), (1000, 90), (30, 5000), (3, 60000), (2000, 30)] * x.n(1, 3)):
        m += x.rng.randrange(9)
        items = [b"T%d=" % j + bytes(x.rng.choice([97, 98]) for _ in range(m)) for j in range(k)]
        body = b"\2\0\0\0ab" + k.to_bytes(4, "little") + b"".join(len(y).to_bytes(4, "little") + y for y in items)
        head = b"\x84" + len(body).to_bytes(3, "big")
        cases.append(Case("k%d-m" % i, body, [["md", 4, len(body), "-"]], kind=BYTE_KINDS[i % 4]))
        cases.append(Case("k%d-i" % i, head + body, [["mdi", "-"]], kind="buf"))
        cases.append(Case("k%d-o" % i, section([good_si(x)])[:4] + bytes([0]) + section([good_si(x)])[5:] + head + body, [["open", i % 2, 1, "-"]]))
    for f, g in metas(["vchuge", "vclen", "vcrand", "vcmany", "vcnames"], x.n(60, 1000), x.seed):
        cases.append(Case("%s-%d" % (f, g["n"]), section([good_si(x)] + g["blocks"]), [["open", 0, 1, "-"]]))
    x.trace("claimed lengths", cases)
    cases = []
    # Frames that claim many samples and have few or no bytes.
    i = 0
    for f, g in hostile({"codes": x.n(61, 5), "size": 1}, x.seed):
        b = bytes(g["bytes"])
        cases.append(Case("f%d" % i, b, [["next", "fresh"]], kind=["buf", "cur"][i % 2]))
        i += 1
    for bs in (1, 4096, 32768, 65535):
        for nch in (1, 2, 8):
            h = b"\xff\xf8\x79" + bytes([(nch - 1) << 4 | 8]) + b"\0" + (bs - 1).to_bytes(2, "big") + b"\0\0"
            h = b"\xff\xf8\x79" + bytes([(nch - 1) << 4 | 8]) + b"\0" + (bs - 1).to_bytes(2, "big")
            h += bytes([crc8(h)])
            for j, body in enumerate((b"", b"\0", b"\0" * 30, b"\x02" + b"\0" * 20, b"\x12" + b"\0" * 20, b"\x40" + b"\0" * 20)):
                cases.append(Case("c%d-%d-%d" % (bs, nch, j), h + body, [["next", ["fresh", "new:5:5:1", "new:0:4:0"][j % 3]]], kind=["buf", "cur"][j % 2]))
    x.trace("claimed frame sizes", cases)
    # Ordinary frames through ordinary readers use no more than they should, either.
    ok = frames("mix", x.n(60, 600), x.seed + 1)
    x.trace("intact frames", [frame_case("f%d" % i, f) for i, f in enumerate(ok)])


def c12(x):
    cases = []
    for i, s in enumerate(streams("stream", x.n(48, 400), x.seed)):
        b = stream_bytes(s)
        total = sum(f["bs"] for f in s["frames"]) * s["nch"]
        ends = frame_ends(s)
        for j in range(x.n(6, 12)):
            k = x.rng.randrange(1, total + 2)
            if j % 6 == 0:      # one at a time over frame boundaries, then beyond the end
                first = s["frames"][0]["bs"] * s["nch"]
                ops = [["itake", first - 1]] + [["itake", 1]] * 4 + [["itake", total]] + [["itake", 1]] * 2
            elif j % 6 == 1:
                ops = [["iter", k], ["take", 1], ["iter", k], ["take", total + 1], ["take", 3], ["iter", 2]]
            elif j % 6 == 2:
                ops = [["next", "keep"], ["iter", x.rng.randrange(0, k)], ["next", "fresh"], ["iter", total + 1], ["take", 1]]
            elif j % 6 == 3:
                ops = [["nextk", "keep"]] * 2 + [["itake", x.rng.randrange(1, 30)] for _ in range(8)]
            elif j % 6 == 4:
                ops = [["iter", x.rng.choice([0, 1, k])] for _ in range(5)]
            else:
                ops = [["itake", total], ["itake", 1], ["itake", 1]]
            d, faults = b, []
            # an error somewhere in every other run
            w = x.rng.randrange(6)
            if w == 0:
                d = flip(b, x.rng.randrange(ends[0] * 8, len(b) * 8))
            elif w == 1:
                d = b[:x.rng.randrange(ends[0], len(b))]
            elif w == 2:
                faults = [(x.rng.choice(ends + [x.rng.randrange(ends[0], len(b))]), x.rng.choice(["eof", fault_kind(j)]))]
            cases.append(Case("s%d-%d" % (i, j), d, [OPEN] + ops, faults=faults))
    x.trace("iteration histories", cases)
    # Large blocks of every number of channels, samples about sizes that matter.
    cases = []
    si = good_si(x)
    for i in range(x.n(44, 160)):
        mode = i % 11
        nch = mode + 1 if mode < 8 else 2
        bs = [4609, 5000, 8192, 16385, 4608, 257, 65535 if nch < 3 else 9000, 1025][(i // 11 + i) % 8]
        body = bytes(si["body"][:10]) + b"\x0a\xc4" + bytes([0x40 | nch - 1 << 1, 0xf0]) + bytes(20)
        d = section([{"ty": 0, "len": 34, "body": list(body)}]) + constants(bs, mode) + constants(16, [mode, 0][i % 2])
        n = bs * nch
        at = x.rng.choice([n, 4608 * nch, 256 * nch, 65536, n - 1])
        ops = [[["itake", n + 100]], [["itake", max(1, at - 1)], ["itake", 1], ["itake", 1], ["itake", n + 100]],
               [["iter", at], ["take", 1], ["take", n + 100]]][i % 3]
        cases.append(Case("c%d" % i, d, [OPEN] + ops))
    x.trace("large blocks", cases)
    # A frame of any unusable kind amid good ones, iterated over, up to and beyond.
    hs = [g for f, g in hostile({"codes": x.n(31, 3), "sync": x.n(5, 1), "number": x.n(9, 1), "subtype": x.n(3, 1), "wasted": x.n(5, 1),
                                 "rice": 1, "escape": 1, "porder": 1, "lpc": x.n(7, 1), "cross": x.n(40, 7)}, x.seed)]
    cases = []
    ss = [s for s in streams("stream", x.n(30, 200), x.seed + 1) if len(s["frames"]) > 1]
    for i, g in enumerate(hs):
        s = x.rng.choice(ss)
        b, a = stream_bytes(s), frame_ends(s)
        at = x.rng.choice(a[:-1])
        total = sum(f["bs"] for f in s["frames"]) * s["nch"]
        one = s["frames"][0]["bs"] * s["nch"]
        ops = [[["itake", total + 1]] * 5, [["itake", one], ["itake", 1], ["itake", 1], ["itake", 3]] + [["itake", total]] * 2,
               [["iter", total + 1], ["take", 1], ["take", total + 1], ["take", 1]]][i % 3]
        cases.append(Case("u%d" % i, b[:at] + bytes(g["bytes"]) + b[at:], [OPEN] + ops, tag=g["tag"]))
    x.trace("unusable frames amid good ones", cases)
    x.client("every use of small streams", "none", x.n(3, 4), [1, 7, 33], 1)
    x.client("small streams with one wrong bit", "damage", x.n(2, 3), [7], x.n(53, 3))


def c14(x):
    cases = []
    for i, s in enumerate(streams("stream", x.n(120, 1500), x.seed) + streams("blocks", x.n(16, 100), x.seed)):
        c = Case("s%d" % i, stream_bytes(s), [OPEN] + [[["next", "nextk"][i % 2], "keep"]] * (len(s["frames"]) + 1))
        for j, f in enumerate(s["frames"]):
            c.opinfo[j + 1] = {"pcm": f["pcm"], "num": f["num"], "time": f["time"]}
        cases.append(c)
    x.trace("blocks of streams", cases)
    cases = []
    for i, f in enumerate(frames("small", x.n(240, 3000), x.seed)):
        cases.append(frame_case("f%d" % i, f, kind=BYTE_KINDS[i % 4]))
    x.trace("blocks of single frames", cases)
    # Frames of sizes other than the stream information says, numbered anyhow;
    # large numbers of large blocks.
    cases = []
    si = good_si(x)
    sizes = [1, 2, 16, 17, 192, 1152, 4096, 4608]
    for i in range(x.n(150, 1500)):
        lo = x.rng.choice(sizes + [16, 192, 256])
        hi = lo if i % 4 < 3 else x.rng.choice(sizes)
        total = x.rng.choice([0, 1, lo - 1, lo, lo + 1, hi, 3 * hi, 1 << 32, (1 << 36) - 1])
        body = lo.to_bytes(2, "big") + hi.to_bytes(2, "big") + bytes(si["body"][4:])
        body = body[:13] + (body[13] << 32 & 0xf000000000 | total).to_bytes(5, "big") + body[18:]
        parts, k = [], x.rng.randrange(2, 6)
        for j in range(k):
            bs = x.rng.choice([lo, hi, lo, x.rng.randrange(1, 300), x.rng.choice(sizes)])
            variable = i % 5 == 4 and j % 2
            bits = x.rng.randrange(37 if variable else 32)
            parts.append(numbered(bs, x.rng.choice([0, 1, 8]), x.rng.choice([j, x.rng.randrange(1 << bits), (1 << bits) - 1]), variable))
        d = b"".join(parts)
        ops = [[["next", "nextk"][i % 2], "keep"]] * (k + 1)
        if i % 3 == 0:
            cases.append(Case("o%d" % i, d, ops, kind=BYTE_KINDS[i % 4]))
        else:
            cases.append(Case("o%d" % i, section([{"ty": 0, "len": 34, "body": list(body)}]) + d, [OPEN] + ops))
    big = [32768, 65534, 65535, 40000]
    for i in range(x.n(36, 200)):
        n = [(1 << 31) - 1, 1 << 30, (1 << 31) - 2, (1 << 29) + 12345, x.rng.randrange(1 << 28, 1 << 31), 0x55555555][i % 6]
        bs = big[i // 6 % 4]
        if i % 3 == 2:
            body = bs.to_bytes(2, "big") * 2 + bytes(si["body"][4:])
            cases.append(Case("b%d" % i, section([{"ty": 0, "len": 34, "body": list(body)}])
                              + numbered([bs, 16, 300][i // 3 % 3], 0, n, 0), [OPEN, ["next", "keep"]]))
        else:
            cases.append(Case("b%d" % i, numbered(bs, 0, n, 0), [["next", "fresh"]], kind=BYTE_KINDS[i % 4]))
    x.trace("blocks of odd sizes and large numbers", cases)
    hs = hostile({"number": x.n(2, 1), "cont": x.n(2, 1), "value": 1, "size": 1}, x.seed)
    x.trace("enumerated numbers", [Case("%s-%d" % (f, g["n"]), bytes(g["bytes"]), [["next", "fresh"]], kind="buf", tag=g["tag"])
                                   for f, g in hs])
    x.client("every use of small streams", "none", x.n(3, 5), [33], 1)


def c15(x):
    hs = hostile({"codes": x.n(9, 1), "badcode": 1, "code1": 1, "code2": 1, "sync": 1, "number": 1, "cont": x.n(2, 1), "value": 1, "size": 1,
                  "subtype": 1, "wasted": 1, "rice": 1, "escape": 1, "porder": 1, "lpc": x.n(2, 1), "order": 1, "second": 1, "cross": x.n(10, 1)}, x.seed)
    x.trace("frames with one coding each", [Case("%s-%d" % (f, g["n"]), bytes(g["bytes"]), [["next", "fresh"]],
                                                 kind=["buf", "cur"][k % 2], tag=g["tag"]) for k, (f, g) in enumerate(hs)])
    cases = []
    for k, (f, g) in enumerate(metas(["types", "seq"], 1, x.seed, {"seq": x.n(3, 1), "types": 1})):
        b = g["blocks"]
        name = "%s-%d" % (f, g["n"])
        if f == "types":
            cases.append(Case(name + "-h", section(b, False), [["mdh", "-"]], kind=BYTE_KINDS[k % 4], tag=g["tag"]))
            cases.append(Case(name + "-m", bytes(b[0]["body"]), [["md", b[0]["ty"], b[0]["len"], "-"]], kind=BYTE_KINDS[k % 4], tag=g["tag"]))
            cases.append(Case(name + "-o", section([good_si(x)] + b), [["open", k % 2, 1, "-"]], tag=g["tag"]))
        else:
            cases.append(Case(name + "-o", section(b), [["open", k % 2, 1, "-"]], tag=g["tag"]))
    x.trace("metadata blocks", cases)
    x.small("short strings as subframes", "any", x.n(3001, 53))
    # A coding that is not allowed, somewhere in a stream, through every interface.
    cases = []
    ss = streams("stream", x.n(6, 40), x.seed)
    bad = [g for f, g in hs if f in ("subtype", "rice", "escape", "wasted", "lpc")]
    for i, s in enumerate(ss):
        a = frame_ends(s)
        b = stream_bytes(s)
        for j in range(x.n(12, 60)):
            g = bytes(x.rng.choice(bad)["bytes"])
            at = x.rng.choice(a)
            ops = [OPEN] + ([["itake", 300]] * 4 if j % 2 else [["nextk", "keep"]] * 6)
            cases.append(Case("s%d-%d" % (i, j), b[:at] + g + b[at:], ops))
    x.trace("streams with such frames", cases)


def c17(x):
    cases = []
    for k, (f, g) in enumerate(metas(["types", "app", "seq", "seqrand", "vcrand", "vclen", "si", "sirand", "silen"], x.n(80, 800), x.seed,
                                     {"seq": x.n(3, 1), "types": x.n(2, 1), "si": x.n(4, 1)})):
        b = g["blocks"]
        nd = needles(g)
        name = "%s-%d" % (f, g["n"])
        kind = BYTE_KINDS[k % 4]
        extra = bytes([(k * 37 + 11) % 256, 7])
        w = k % 4
        if w == 0:
            cases.append(Case(name, section(b, False) + extra, [["mdi", nd]] * (len(b) + 2) + [["u8e"]], kind=kind, tag=g["tag"]))
        elif w == 1:
            cases.append(Case(name, section(b, False) + extra, [["mdh", nd]] * len(b) + [["u8e"]], kind=kind, tag=g["tag"]))
        elif w == 2:     # the container keeps the headers
            ops = [["md", c["ty"], c["len"], nd] for c in b]
            cases.append(Case(name, b"".join(bytes(c["body"]) for c in b) + extra, ops + [["u8e"]], kind=kind, tag=g["tag"]))
        else:
            ops = [o for c in b for o in (["mdh", nd], ["u8e"])]
            d = b"".join(section([c], False) + extra[:1] for c in b)
            cases.append(Case(name, d, ops, kind=kind, tag=g["tag"]))
    # Long ones, most of which is only skipped over.
    for i, n in enumerate([0xffff, 0x10000, 0x7fffff, 0x800000, 0x800001, 0xff0000, 0xfffffe, 0xffffff] * x.n(3, 7)):
        ty = [1, 3, 5, 6, 9, 126, 64][(i + i // 8) % 7]
        rest = [(n - 4, i + 1, "hole"), b"\1\2\3\4", b"\x81\0\0\2ab", b"\x37"]
        head = bytes([ty]) + n.to_bytes(3, "big")
        d, ops = [([head] + rest, [["mdi", "-"]] * 3 + [["u8e"]]), ([head] + rest, [["mdh", "-"]] * 2 + [["u8e"]]),
                  (rest, [["md", ty, n, "-"], ["mdh", "-"], ["u8e"]])][i % 3]
        cases.append(Case("long%d" % i, d, ops, kind=BYTE_KINDS[(i + i // 4) % 4]))
    x.trace("metadata blocks one by one", cases)
    # Blocks of every length up to a point, of the types that are skipped over or
    # kept; also very many of them.
    cases = []
    for ty in (1, 2, 3, 5, 6, 7):
        lens = [n for n in range(4 if ty == 2 else 0, 720) if x.thorough or n < 48 or (n + ty) % 3 == 0 or n % 12 == 0]
        for j in range(0, len(lens), 40):
            k = ty + j // 40
            bl = [{"ty": ty, "len": n, "body": [(n + q) % 256 for q in range(n)]} for n in lens[j:j + 40]]
            if k % 2:
                cases.append(Case("len%d-%d" % (ty, j), section(bl, False) + b"\x37", [["mdi", "-"]] * (len(bl) + 1) + [["u8e"]], kind=BYTE_KINDS[k // 2 % 4]))
            else:
                cases.append(Case("len%d-%d" % (ty, j), section(bl, False) + b"\x37", [["mdh", "-"]] * len(bl) + [["u8e"]], kind=BYTE_KINDS[k // 2 % 4]))
    for i, n in enumerate([127, 128, 129, 255, 256, 257, 300, 700]):
        bl = [{"ty": [1, 9, 6][(i + j) % 3], "len": j % 3, "body": [j % 256] * (j % 3)} for j in range(n)]
        cases.append(Case("number%d" % n, section(bl, False) + b"\x37", [["mdi", "-"]] * (n + 2) + [["u8e"]], kind=BYTE_KINDS[i % 4]))
    x.trace("blocks of all lengths, and many", cases)
    # A block that cannot be read, amid good ones: the iterator ends there.
    cases = []
    M = 10485760
    gs = [g for f, g in metas(["seqrand", "app"], x.n(40, 300), x.seed + 1)]
    bad = [bytes([t]) + n.to_bytes(3, "big") for t in (2, 4) for n in (0, 3, 7, M, M + 1, 3 * M // 2, (1 << 24) - 1)] \
        + [b"\x00\0\0\x21", b"\x00\0\0\0", b"\x7f\0\0\0", b"\x7f\0\0\4", b"\x04\0\0\x09\xff\0\0\0\0\0\0\0\0",
           b"\x04\0\0\x0e\0\0\0\0\1\0\0\0\2\0\0\0AB", b"\x00\0\0\x22" + bytes(34), b""]
    for i in range(x.n(200, 3000)):
        g, h, e = x.rng.choice(gs)["blocks"], x.rng.choice(gs)["blocks"], x.rng.choice(bad)
        if e and x.rng.randrange(4) == 0:
            e = bytes([e[0] | 128]) + e[1:]
        front, back = section(g, False), section(h, False)
        k = x.rng.randrange(len(g))
        front = section(g[:k] + h[:1], False)[:-4 - len(h[0]["body"])]   # the first k, none of them the last
        d = front + e + back
        faults = []
        if not e or i % 5 == 0:
            faults = [(x.rng.choice([len(front), x.rng.randrange(len(d) + 1)]), x.rng.choice(["eof", fault_kind(i)]))]
        n = k + 2 + x.rng.randrange(3)
        ops = [["mdi", "-"]] * n + ([["u8e"], ["mdi", "-"]] if i % 3 == 0 and not faults else [])
        kind = ["buf", "mbuf"][i % 2] if faults else BYTE_KINDS[i % 4]
        cases.append(Case("e%d" % i, d, ops, kind=kind, faults=faults, chunks=x.rng.choice([[], [1], [5, 2]]) if "buf" in kind else []))
    x.trace("unreadable blocks amid good ones", cases)
    cases = []
    for i, s in enumerate(streams("stream", x.n(40, 400), x.seed)):
        kind = BYTE_KINDS[i % 4]
        nb, nf = len(s["meta"]), len(s["frames"])
        w = i % 5
        if w == 0:       # a whole stream, marker taken off
            cases.append(Case("s%d" % i, stream_bytes(s)[4:] + b"x", [["mdi", "-"]] * (nb + 1) + [["next", "keep"]] * nf + [["u8e"]] * 2, kind=kind))
        elif w == 1:
            cases.append(Case("s%d" % i, stream_bytes(s)[4:], [["mdh", "-"]] * nb + [["nextk", "fresh"]] * (nf + 1) + [["u8e"]], kind=kind))
        elif w == 2:     # packets with something of the container's in between
            d = b"".join(bytes(f["bytes"]) + bytes([i % 256, (200 + j) % 256]) for j, f in enumerate(s["frames"]))
            cases.append(Case("s%d" % i, d, [["next", "keep"], ["u8e"], ["u8e"]] * nf + [["next", "keep"]], kind=kind))
        elif w == 3:     # metadata repeated amid the audio
            d = b"".join(section(s["meta"][j % nb:j % nb + 1], False) + bytes(f["bytes"]) for j, f in enumerate(s["frames"]))
            cases.append(Case("s%d" % i, d, [["mdh", "-"], ["next", "fresh"]] * nf + [["u8e"]], kind=kind))
        else:
            cases.append(Case("s%d" % i, stream_bytes(s), [OPEN] + [["nextk", "keep"]] * (nf + 1) + [["inner"]]))
        cases.append(Case("w%d" % i, stream_bytes(s), [OPEN] + [["next", "keep"]] * (nf + 1)))
    for i, f in enumerate(frames("mix", x.n(60, 600), x.seed)):
        c = frame_case("f%d" % i, f, kind=BYTE_KINDS[i % 4])
        c.data += bytes([i % 256, 1])
        cases.append(c)
    x.trace("frames one by one", cases)
    hs = hostile({"codes": x.n(97, 3), "subtype": 4, "rice": 2, "second": 1, "number": x.n(13, 1), "escape": 3}, x.seed)
    x.trace("ill-formed frames", [Case("%s-%d" % (f, g["n"]), bytes(g["bytes"]), [["next", "fresh"]], kind=BYTE_KINDS[k % 4])
                                  for k, (f, g) in enumerate(hs)])


BYTE = dict(module="ByteTrace", spec="Spec", invs=["Explained"], consts=[], view=None)
BITS = dict(module="BitTrace", spec="Spec", invs=["Right"], consts=[], view=None)


def byte_model(x):
    x.model("buffered reader refines byte source", "BufReader",
            """SPECIFICATION Spec
CONSTANTS N = %d Cap = %d MaxFaults = %d OpNames = %s Amounts = %s Variant = "right"
INVARIANT Window
PROPERTIES Refines Explains Forward%s
""" % (x.n(4, 5), x.n(2, 3), x.n(1, 2), x.n('{"u8e", "be16e", "be24"}', '{"u8", "u8e", "be16", "be16e", "be24", "le32"}'),
       x.n("{0, 1, 3}", "{0, 1, 2, 3, 5}"), x.n("", " Returns")),
            "refinement of ByteAbs under every fragmentation and every placement of obstacles",
            wrong=[('"right"', '"%s"' % v) for v in ("stale", "overrun", "short")])


def bit_model(x):
    for w, n in x.n([(2, 4)], [(2, 6), (3, 4), (4, 3)]):
        x.model("bit reader, %d-bit bytes" % w, "BitReader",
                """SPECIFICATION Spec
CONSTANTS W = %d NBytes = %d Variant = "right"
INVARIANTS Frugal Padded
PROPERTY Right
VIEW View
""" % (w, n), "every operation in every state, over every source of %d bytes" % n,
                wrong=[('"right"', '"%s"' % v) for v in ("offset", "unary", "stuck")])


def c06(x):
    byte_model(x)
    x.trace("all short read histories", reads("bytes", 0, x.seed, x.n(4, 1)), **BYTE)
    x.trace("reads and skips to the edges", reads("edges", 0, x.seed, x.n(5, 1)), **BYTE)
    x.trace("random read histories", reads("brand", x.n(1200, 30000), x.seed), **BYTE)
    # Amounts that matter to integers and buffers.
    edges = [2046, 2047, 2048, 2049, 4096, 65534, 65535, 65536, 65537, 131072, 67584, 100000]
    long = bytes(x.rng.randrange(256) for _ in range(140000))
    cases = []
    for i in range(x.n(60, 600)):
        d = long[:x.rng.choice([0, 1, 100, 2048, 4096, 65536 + 2048, 131072, 135000, 140000])]
        ops, pos = [], 0
        while pos < len(d) and len(ops) < 8:
            w = x.rng.choice(["skip", "skip", "into", "u8", "be32", "small"])
            n = {"u8": 1, "be32": 4, "small": x.rng.randrange(1, 40)}.get(w, x.rng.choice(edges))
            if w == "into" and n > 5000:
                n = n & 4095 | 2048
            ops.append([w] if w in ("u8", "be32") else ["skip" if w == "small" else w, n])
            pos += n
        ops += [["u8e"], ["be16e"], ["u8e"]]
        faults = [] if i % 3 else [(x.rng.randrange(len(d) + 1), x.rng.choice(["eof", fault_kind(i)]))]
        cases.append(Case("e%d" % i, d, ops, kind=["buf", "buf", "mbuf", "cur"][i % 4] if not faults else "buf", faults=faults,
                          chunks=[[], [2047], [2048, 1], [1000, 5000]][x.rng.randrange(4)]))
    # Input in pieces of every size about that of a buffer, read in every way.
    sizes = [511, 512, 513, 1023, 1024, 1025, 1536] + list(range(2040, 2056)) + [4095, 4096, 4097]
    for i, n in enumerate(sizes * x.n(2, 8)):
        d = long[i:i + 4 * n + 50]
        ops, pos = [], 0
        while pos < len(d) - 8:
            left = n - pos % n
            k = x.rng.choice([left, left - 1, left + 1, left - 2, left, n])
            if k > 0:
                ops.append([x.rng.choice(["skip", "into"]), min(k, len(d) - pos)])
                pos += min(k, len(d) - pos)
            w, m = x.rng.choice([("u8", 1), ("u8", 1), ("u8e", 1), ("be16", 2), ("be16e", 2), ("be24", 3), ("be32", 4), ("le32", 4)])
            ops.append([w])
            pos += m
        cases.append(Case("q%d" % i, d, ops + [["u8e"]] * 9, kind=["buf", "mbuf"][i % 2], chunks=[[n], [n], [n, n - 1], [n, 1]][i // len(sizes) % 4]))
    x.trace("amounts that exceed buffers and 16 bits", cases, **BYTE)
    # A cursor that begins anywhere.
    cases = []
    d = bytes(range(1, 12))
    for i in range(x.n(600, 6000)):
        at = x.rng.choice([0, 1, 5, 10, 11, 12, 13, 50, 2047, 1 << 16, 1 << 31, 1 << 32, (1 << 32) + 3, 1 << 63, (1 << 64) - 6, (1 << 64) - 1])
        ops = []
        for _ in range(x.rng.randrange(1, 5)):
            w = x.rng.choice(["u8", "u8e", "be16", "be16e", "be24", "be32", "le32", "into", "into", "skip", "skip"])
            n = x.rng.choice([0, 0, 1, 2, 5, 6, 11, 12, 4000] + ([1 << 16, (1 << 31) - 1] if w == "skip" else []))
            ops.append([w, n] if w in ("into", "skip") else [w])
        cases.append(Case("p%d" % i, d, ops + [["u8e"]], kind="%s@%d" % (["cur", "mcur"][i % 2], at)))
    x.trace("cursors that begin anywhere", cases, **BYTE)
    # Long skips.
    cases = []
    for i, n in enumerate([65535, 65536, 70000, 1 << 20, 1 << 24, (1 << 24) + 1] * 2 + [(1 << k) + 2048 * j + d for k, j, d in ((16, 3, 1), (20, 1, 2047), (24, 5, 1), (24, 7, 0), (25, 0, 2047))] + [(1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1]):
        for j in range(2):
            a, z = x.rng.randrange(1, 3000), x.rng.randrange(1, 3000)
            front, back = bytes(x.rng.randrange(256) for _ in range(a)), bytes(x.rng.randrange(256) for _ in range(z))
            s, t = x.rng.randrange(a), x.rng.randrange(z)
            hole = n - (a - s) - (t + 1)
            kind = BYTE_KINDS[(i + j) % 4] if n < 1 << 26 else ["buf", "mbuf"][j]
            ops = [["into", s], ["skip", n, a - s + t + 1, 1], ["u8e"], ["skip", 0], ["be16e"], ["into", max(0, z - t - 4)], ["u8e"]]
            cases.append(Case("l%d-%d" % (i, j), [front, (hole, 0x5a, "hole"), back], ops, kind=kind,
                              chunks=[] if n > 1 << 26 else [[], [1999], [2048]][i % 3]))
    x.trace("long skips", cases, limit_ms=150000, **BYTE)
    # Retries at frame boundaries.
    cases = []
    for i, s in enumerate(streams("stream", x.n(32, 300), x.seed)):
        b = stream_bytes(s)
        ends = frame_ends(s)
        nf = len(s["frames"])
        for j in range(x.n(6, 10)):
            at = sorted(x.rng.choice(ends) for _ in range(1 + j % 4))
            f = [(p, "eof" if x.rng.random() < .4 else fault_kind(k)) for k, p in enumerate(at)]
            ch = [[], [1], [5, 0], [97], [2048]][x.rng.randrange(5)]
            n = nf + len(f) + 1
            if j % 3 == 0:
                ops = [OPEN] + [["next", "keep"]] * n
            elif j % 3 == 1:
                ops = [OPEN] + [["nextk", "keep"]] * n
            else:
                ops = [OPEN] + [["iter", 4000]] * (len(f) + 2)
            cases.append(Case("s%d-%d" % (i, j), b, ops, faults=f, chunks=ch))
            if j % 3 == 1:      # the same through a byte reader of the caller
                cases.append(Case("b%d-%d" % (i, j), b[ends[0]:], ops[1:], faults=[(p - ends[0], k) for p, k in f], chunks=ch,
                                  kind=["buf", "mbuf"][i % 2]))
    x.trace("retries at frame boundaries", cases)
    x.client("obstacles between frames of small streams", "faults", x.n(3, 4), [33], x.n(7, 1))


def c16(x):
    bit_model(x)
    x.trace("all short bit histories", reads("bits", 0, x.seed, x.n(3, 1), lanes=8), **BITS)
    x.trace("random bit histories", reads("bitrand", x.n(1500, 40000), x.seed), **BITS)
    cases = []
    for i, z in enumerate([100, 2047, 2048, 4097, 30000, 65536]):
        for lead in range(0, 8, 3):
            d = bytes([255]) + bytes(z) + bytes([0x80 >> (i + lead) % 8, 0x5a, 0xc3])
            cases.append(Case("zeros%d-%d" % (z, lead), d, [["bit"]] * lead + [["unary"]] * (9 - lead) + [["leq8", 5], ["u8e"]],
                              kind=BYTE_KINDS[(i + lead) % 4], chunks=[[], [100], [1]][lead // 3]))
    x.trace("long unary codes", cases, **BITS)


REL = dict(module="Rel", spec="Spec", invs=["Indistinguishable"], consts=[], view=None, tool_invs=[])
LIGHT = dict(module="Light", spec="Spec", invs=["Behaves", "Progress", "LegalCalls"], consts=[], view=None,
             tool_invs=["LegalCalls"], record=vlib.light_record)
VIEWS = dict(module="Views", spec="Spec", invs=["Agreement"], consts=[], view=None, tool_invs=[])


def fragmentations(x, k):
    """Ways to cut up the input."""
    some = [[1], [2], [3], [1, 0], [7, 1], [2047, 1], [2048], [100], [1, 2, 3, 5, 8, 13], [1000, 1]]
    return [[]] + x.rng.sample(some, k - 2) + [[x.rng.randrange(1, 50) for _ in range(5)]]


def spoiled(x, b):
    """Some damage."""
    w = x.rng.randrange(6)
    if w == 0 or len(b) < 4:
        return flip(b, x.rng.randrange(len(b) * 8)) if b else b
    p = x.rng.randrange(len(b))
    if w == 1:
        return b[:p]
    if w == 2:
        return b[:p] + bytes([x.rng.choice([0, 255, 128, 127, x.rng.randrange(256)])]) + b[p + 1:]
    if w == 3:
        return b[:p] + bytes(x.rng.randrange(256) for _ in range(x.rng.randrange(1, 9))) + b[p:]
    if w == 4:
        return b[:p] + b[min(len(b), p + x.rng.randrange(1, 9)):]
    q = x.rng.randrange(len(b))
    return b[:p] + b[q:] if x.rng.random() < .5 else b[:p] + bytes([x.rng.choice([0, 255])]) * x.rng.randrange(1, 20) + b[p:]


def c04(x):
    byte_model(x)
    groups = []
    ss = streams("stream", x.n(40, 400), x.seed) + streams("blocks", x.n(8, 60), x.seed)
    for i, s in enumerate(ss):
        b = stream_bytes(s)
        nf, nb, a = len(s["frames"]), len(s["meta"]), len(section(s["meta"]))
        if i % 3 == 2:
            b = spoiled(x, b)
        ops = [[OPEN] + [["nextk", "keep"]] * (nf + 1), [OPEN] + [["next", "fresh"]] * (nf + 1),
               [OPEN] + [["itake", 50]] * 6 + [["itake", 100000]], [["open", 1, 1, "-"]]][i % 4]
        groups.append([Case("", b, ops, chunks=ch) for ch in fragmentations(x, x.n(5, 9))]
                      + ([] if i % 4 else [Case("", b, ops, kind="file")]))
        # all kinds of readers
        d = b[4:]
        ops = [["mdi", "-"]] * (nb + 1) + [["nextk", "keep"]] * (nf + 1) if i % 2 else \
              [["mdh", "-"]] * nb + [["next", "fresh"]] * (nf + 1)
        groups.append([Case("", d, ops, kind=k) for k in ("cur", "mcur")]
                      + [Case("", d, ops, kind=k, chunks=ch) for k in ("buf", "mbuf") for ch in fragmentations(x, 3)])
        if i % 3 == 0:
            p = x.rng.randrange(len(b))
            f = [(p, x.rng.choice(["eof", fault_kind(i)]))]
            ops = [OPEN] + [["nextk", "keep"]] * (nf + 2)
            groups.append([Case("", b, ops, chunks=ch, faults=f) for ch in fragmentations(x, 5)])
    x.rel("streams", groups)
    groups = []
    for i, f in enumerate(frames("long", x.n(4, 24), x.seed, lanes=4) + frames("mix", x.n(40, 400), x.seed)):
        b = bytes(f["bytes"])
        if i % 5 == 4:
            b = spoiled(x, b)
        ops = [["next", "fresh"], ["u8e"]]
        groups.append([Case("", b, ops, kind="cur")]
                      + [Case("", b, ops, kind=["buf", "mbuf"][j % 2], chunks=ch) for j, ch in enumerate(fragmentations(x, 4))])
    for k, (f, g) in enumerate(metas(["vcrand", "vclen", "seqrand", "types"], x.n(60, 600), x.seed, {"types": x.n(7, 1)})):
        b = section(([good_si(x)] if f != "seqrand" else []) + g["blocks"])
        if k % 3 == 2:
            b = spoiled(x, b)
        ops = [["open", k % 2, 1, needles(g)]]
        if k % 2:
            groups.append([Case("", b, ops, chunks=ch) for ch in fragmentations(x, 4)])
        else:
            ops = [["mdi", needles(g)]] * (len(g["blocks"]) + 2)
            groups.append([Case("", b[4:], ops, kind="cur")] + [Case("", b[4:], ops, kind="buf", chunks=ch) for ch in fragmentations(x, 4)])
    x.rel("frames and metadata", groups)
    # Long blocks, skipped over or kept.
    groups = []
    for i, n in enumerate([254, 255, 256, 257, 512, 768, 2047, 2048, 2049, 4096, 65535, 65536, 65537, 66000, 131072, 200000, 1 << 20, (1 << 24) - 1]):
        ty = [1, 3, 2, 6, 9, 5][i % 6]
        if ty == 2 and n > 300000:
            ty = 1
        for end in (b"", section([good_si(x)], False)):
            ops = [["mdh", "-"]] * 2 + [["u8e"]]
            d = [bytes([ty]) + n.to_bytes(3, "big"), (n, i + 1), end]
            groups.append([Case("", d, ops, kind=k) for k in ("cur", "mcur")]
                          + [Case("", d, ops, kind=k, chunks=ch) for k in ("buf", "mbuf") for ch in ([], [1000], [2048, 3])])
            ops = [["md", ty, n, "-"], ["u8e"]]
            groups.append([Case("", d[1:], ops, kind="cur")] + [Case("", d[1:], ops, kind="buf", chunks=ch) for ch in ([], [2047])])
    x.rel("long blocks", groups)
    # The same far into a cursor as near its beginning, or through a buffer.
    groups = []
    long = bytes(x.rng.randrange(256) for _ in range(220000))
    for i in range(x.n(40, 300)):
        d = long[:x.rng.choice([66000, 131100, 200001, 220000])]
        ops, pos = [], 0
        while pos <= len(d) and len(ops) < 9:
            w = x.rng.choice(["skip", "into", "into", "u8", "be16", "be24", "be32", "le32"])
            n = x.rng.choice([1, 7, 255, 256, 2048, 4097, 32767, 32768, 32769, 40001, 65535, 65536, 65537])
            ops.append([w, n] if w in ("skip", "into") else [w])
            pos += n if w in ("skip", "into") else 1
        ops += [["u8e"], ["be16e"]]
        groups.append([Case("", d, ops, kind=k) for k in ("cur", "mcur", "buf")] + [Case("", d, ops, kind="mbuf", chunks=ch) for ch in fragmentations(x, 3)])
    x.rel("far into long inputs", groups)
    # Byte and bit reads.
    groups = []
    for h in reads("edges", 0, x.seed, x.n(13, 1)) + reads("brand", x.n(400, 6000), x.seed) + reads("bitrand", x.n(300, 4000), x.seed):
        if h.faults:
            continue
        groups.append([Case("", h.data, h.ops, kind=k) for k in ("cur", "mcur")]
                      + [Case("", h.data, h.ops, kind=["buf", "mbuf"][j % 2], chunks=ch) for j, ch in enumerate(fragmentations(x, 4))])
    x.rel("byte and bit reads", groups)


def buffers(x, n):
    """Buffers to recycle, as long as, longer, shorter than a block of n samples."""
    fill = lambda: x.rng.choice([-1, 1, 0x5a5a5a5a, -2147483648, 2147483647])
    lens = [0, 1, n - 1, n, n + 1, 2 * n, 8 * n, x.rng.randrange(1, 3 * n + 2)]
    return ["new:%d:%d:%d" % (max(0, m), max(0, m) + x.rng.choice([0, 0, 1, n, 5 * n]), fill()) for m in lens]


def c11(x):
    groups = []
    for i, f in enumerate(frames("mix", x.n(100, 1000), x.seed) + frames("long", x.n(3, 16), x.seed, lanes=3)):
        b = bytes(f["bytes"])
        n = f["bs"] * len(f["pcm"]) if "bs" in f else len(f["pcm"]) * len(f["pcm"][0])
        kind = BYTE_KINDS[i % 4]
        groups.append([Case("", b, [["next", "fresh"]], kind=kind, poison=p) for p in (0, 0xff, 0xa5)]
                      + [Case("", b, [["next", u]], kind=kind) for u in buffers(x, n)])
    # Frames of constants of all sizes, their buffers a little too short or long;
    # also what comes out as a buffer in the end.
    sizes = [1, 2, 16, 192, 255, 256, 257, 1023, 1024, 1025, 1152, 2304, 4096, 4608, 8192] + x.n([16384], [16384, 32767, 32768, 65535])
    for i, bs in enumerate(sizes):
        for mode in (0, 1, 7, 8, 9, 10) if x.thorough or i % 3 == 0 else ((i + 1) % 8, 8 + i % 3):
            nch = mode + 1 if mode < 8 else 2
            b, n = constants(bs, mode), bs * nch
            if n > x.n(20000, 600000):
                continue
            lens = [n - 1, n, n + 1, bs, n - bs, n + bs, n // 2, n - 2, n + 2]
            caps = [n, n + 1, n + x.rng.randrange(1, 20), 2 * n, n - 1]
            groups.append([Case("", b, [["next", "fresh", "views"]], kind=BYTE_KINDS[i % 4])]
                          + [Case("", b, [["next", "new:%d:%d:7" % (max(0, m), max(0, m, x.rng.choice(caps))), "views"]], kind=BYTE_KINDS[i % 4])
                             for m in x.rng.sample(lens, 6) + [n]])
    x.rel("one frame, many buffers", groups)
    # Blocks of changing size and number of channels in succession, recycled.
    groups = []
    fs = frames("small", x.n(60, 600), x.seed)
    for i in range(x.n(40, 400)):
        some = [x.rng.choice(fs) for _ in range(x.rng.randrange(2, 6))]
        b = b"".join(bytes(f["bytes"]) for f in some)
        if i % 4 == 3:      # the last one is not whole
            b = b[:-x.rng.randrange(1, len(some[-1]["bytes"]))]
        kind = BYTE_KINDS[i % 4]
        k = len(some)
        groups.append([Case("", b, [["next", "fresh"]] * k, kind=kind, poison=p) for p in (0, 0x7f)]
                      + [Case("", b, [["next", "keep"]] * k, kind=kind, poison=p) for p in (0x11, 0xee)]
                      + [Case("", b, [["nextk", "keep"]] * k, kind=kind)]
                      + [Case("", b, [["nextk", x.rng.choice(buffers(x, 60))] for _ in range(k)], kind=kind) for _ in range(3)])
    x.rel("successive frames", groups)
    # The same frame again, into what came out of it the first time, more or less.
    groups = []
    many = [(bytes(f["bytes"]), len(f["pcm"][0])) for f in frames("mix", x.n(80, 800), x.seed + 2)] \
        + [(constants(bs, mode), bs) for bs in (2, 3, 4, 16, 192, 1000, 4096) for mode in (0, 1, 8, 9, 10)]
    for i, (b, n) in enumerate(many):
        kind = BYTE_KINDS[i % 4]
        groups.append([Case("", b + b, [[w, "fresh"], [w, u]], kind=kind)
                       for w, u in (("next", "fresh"), ("next", "keep"), ("nextk", "spoil:%d:%d" % (n, x.rng.choice([1, -7, 1 << 20]))),
                                    ("next", "spoil:%d:%d" % (max(1, n // 2), x.rng.choice([2, 0x5a5a]))), ("nextk", "spoil:1000000:5"))])
    x.rel("a frame again", groups)
    # Streams: iterators recycle by themselves; so does metadata use fresh memory.
    groups = []
    for i, s in enumerate(streams("stream", x.n(32, 300), x.seed)):
        b = stream_bytes(s)
        if i % 4 == 3:
            b = spoiled(x, b)
        nf = len(s["frames"])
        groups.append([Case("", b, [["open", 0, 1, "-"]] + [["itake", 77]] * 4 + [["itake", 100000]], poison=p) for p in (0, 0x55, 0xff)])
        groups.append([Case("", b, [OPEN] + [["next", u] for _ in range(nf + 1)], poison=p)
                       for u, p in (("fresh", 0), ("fresh", 0xff), ("keep", 1), ("keep", 0xfe), ("new:10:2000:9", 3))])
    for k, (f, g) in enumerate(metas(["vcrand", "vclen", "vcutf8", "seqrand", "types", "seq"], x.n(60, 600), x.seed,
                                     {"types": x.n(5, 1), "seq": x.n(5, 1)})):
        b = section(([good_si(x)] if f[:3] != "seq" else []) + g["blocks"])
        if k % 3 == 2:
            b = spoiled(x, b)
        nd = needles(g)
        if k % 2:
            groups.append([Case("", b, [["open", 0, 1, nd]], poison=p, chunks=ch) for p, ch in ((0, []), (0xff, []), (0x41, [3]))])
        else:
            ops = [["mdi", nd]] * (len(g["blocks"]) + 2)
            groups.append([Case("", b[4:], ops, kind=["buf", "cur"][(k // 2) % 2], poison=p) for p in (0, 0xff, 0x41)])
    x.rel("streams and metadata", groups)


def c13(x):
    cases = []
    for i, f in enumerate(frames("mix", x.n(200, 2000), x.seed)):
        cases.append(Case("f%d" % i, bytes(f["bytes"]), [["next", ["fresh", "new:100:200:3", "new:9000:9000:-3"][i % 3], "views"]],
                          kind=BYTE_KINDS[i % 4]))
    for i, s in enumerate(streams("stream", x.n(40, 400), x.seed)):
        cases.append(Case("s%d" % i, stream_bytes(s), [OPEN, ["empty"]] + [[["next", "nextk"][i % 2], "keep", "views"]] * len(s["frames"])))
    # Blocks of different shapes out of one recycled buffer.
    fs = frames("small", x.n(80, 600), x.seed)
    for i in range(x.n(60, 600)):
        some = [x.rng.choice(fs) for _ in range(5)]
        cases.append(Case("r%d" % i, b"".join(bytes(f["bytes"]) for f in some), [["nextk", "keep", "views"]] * 5, kind=BYTE_KINDS[i % 4]))
    # Extreme block sizes: constant subframes.
    for bs in (1, 2, 3, 255, 256, 257, 32768, 65535):
        for nch in (1, 2, 3, 7, 8):
            if bs * nch > 140000 and (bs, nch) != (65535, 8) and not x.thorough:
                continue
            for mode in ([nch - 1] + ([8, 9, 10] if nch == 2 else [])):
                cases.append(Case("x%d-%d-%d" % (bs, nch, mode), constants(bs, mode), [["next", "fresh", "views"]], kind="cur"))
    x.trace("blocks", cases, **VIEWS)


def nasty(x, fs, ss, ms, hs):
    """One source that is probably not in order: (kind of handle, bytes)."""
    r = x.rng
    w = r.randrange(10)
    if w < 3:
        b = stream_bytes(r.choice(ss))
        for _ in range(r.choice([0, 1, 1, 2, 5])):
            b = spoiled(x, b)
        return "none", b
    if w == 3:
        g = r.choice(ms)
        b = section(([good_si(x)] if r.random() < .7 else []) + g["blocks"])
        for _ in range(r.choice([0, 1, 1, 3])):
            b = spoiled(x, b)
        return ("none", b) if r.random() < .7 else ("bytes", b[4:])
    if w == 4:
        return "bytes", bytes(r.choice(hs)["bytes"])
    if w == 5:
        n = r.choice([0, 1, 5, 20, 100, 1000])
        b = bytes(r.choice([r.randrange(256), 0, 255]) for _ in range(n))
        return r.choice([("none", b), ("bytes", b), ("none", b"fLaC" + b), ("none", section([good_si(x)]) + b"\xff\xf8" + b)])
    f = r.choice(fs)
    b, h = bytes(f["bytes"]), f["hdrlen"]
    if w < 8:      # body damaged, checksums right: gets past them
        for _ in range(r.choice([1, 1, 2, 8])):
            b = flip(b, r.randrange(h * 8, len(b) * 8 - 16)) if r.random() < .6 else \
                (lambda p: b[:p] + bytes([r.choice([0, 255, 128, 127])]) + b[p + 1:])(r.randrange(h, len(b) - 2))
        b = fix_footer(b)
    elif w == 8:   # header damaged, checksum right
        for _ in range(r.choice([1, 2])):
            b = fix_header(flip(b, r.randrange((h - 1) * 8)), h)
        b = fix_footer(b) if r.random() < .5 else b + bytes(r.choice([0, 50, 3000]))
    else:
        b = spoiled(x, spoiled(x, b))
    if r.random() < .3:
        return "none", section([good_si(x)]) + b
    return "bytes", b


def c03(x):
    fs = frames("mix", x.n(200, 1200), x.seed) + frames("small", x.n(200, 1200), x.seed)
    ss = streams("stream", x.n(40, 200), x.seed)
    ms = [g for f, g in metas(["vcrand", "vclen", "vchuge", "vcshort", "seq", "seqrand", "silen", "sirand", "types", "vcutf8"],
                              x.n(60, 400), x.seed, {"types": 3})]
    md = [g for f, g in metas(["vclen", "vctail", "vchuge", "vcshort", "vcplace", "vcbytes", "silen", "app", "seq", "vcvalue", "vcutf8"], 1, x.seed,
                              {"vcplace": x.n(11, 1), "vcbytes": x.n(5, 1), "seq": x.n(3, 1)})]
    hs = [g for f, g in hostile({"codes": 37, "subtype": 1, "wasted": 1, "rice": 1, "escape": 1, "porder": 1, "lpc": 2, "order": 1,
                                 "second": 1, "size": 1, "badcode": 3, "number": 11, "wide": x.n(5, 1), "cross": x.n(20, 4)}, x.seed)]
    x.trace("one hostile coding", [Case("h%d" % i, bytes(g["bytes"]), [["next", "fresh"], ["next", "keep"]], kind=BYTE_KINDS[i % 4], quiet=True)
                                   for i, g in enumerate(hs)], **LIGHT)
    cases = []
    for i, g in enumerate(md):
        b = section(g["blocks"], False) + [bytes(5), b"", b"\1\0\0\0\0A=bc"][i % 3]
        cases.append(Case("m%d" % i, b, [["mdi", "-"]] * 3, kind=BYTE_KINDS[i % 4], quiet=True))
        cases.append(Case("o%d" % i, section([good_si(x)] + g["blocks"]) + bytes(i % 7), [["open", i % 2, 1, "-"]], quiet=True))
        c = g["blocks"][-1]
        cases.append(Case("b%d" % i, bytes(c["body"]) + bytes(5), [["md", c["ty"], c["len"], "-"], ["u8e"]], kind=BYTE_KINDS[(i + 1) % 4], quiet=True))
        if i % 3 == 0:
            cases.append(Case("f%d" % i, section([good_si(x)] + g["blocks"]), [["open", 0, 1, "-"], ["nextk", "keep"]], kind="flac", quiet=True,
                              faults=[(x.rng.randrange(len(b) + 43), x.rng.choice(["eof", fault_kind(i)]))]))
    x.trace("one hostile block", cases, **LIGHT)
    # Numbers as large as can be, and streams whose every field is at its edge.
    cases = []
    for i in range(x.n(300, 3000)):
        bs = x.rng.choice([1, 2, 16, 192, 4096, 4608, 32768, 65534, 65535])
        variable = i % 3 == 2
        bits = x.rng.randrange(37 if variable else 32)
        top = 1 << (36 if variable else 31)
        number = x.rng.choice([x.rng.randrange(1 << bits), (1 << bits) - 1, (1 << bits) // 2, top - 1, top - 1 - x.rng.randrange(bs), x.rng.randrange(top)])
        d = numbered(bs, x.rng.choice([0, 1, 7, 8]), number, variable)
        if i % 2:
            body = x.rng.choice([bs, 16, 65535]).to_bytes(2, "big") + bs.to_bytes(2, "big") + bytes(x.rng.choice([0, 255, 1, 128]) for _ in range(30))
            ops = x.rng.choice([[["next", "keep"]] * 2, [["iter", 5]], [["itake", 1 << 20]]])
            cases.append(Case("n%d" % i, section([{"ty": 0, "len": 34, "body": list(body)}]) + d, [OPEN] + ops, quiet=True))
        else:
            cases.append(Case("n%d" % i, d * 2, [["next", "fresh"], ["nextk", "keep"]], kind=BYTE_KINDS[i // 2 % 4], quiet=True))
    x.trace("large numbers", cases, **LIGHT)
    hist = {"none": histories("none", x.n(300, 3000), x.seed), "bytes": histories("bytes", x.n(300, 3000), x.seed)}
    usual = {"none": [[OPEN] + [["nextk", "keep"]] * 7, [OPEN] + [["itake", 100000]] * 2, [OPEN, ["iter", 5]] + [["next", "fresh"]] * 6,
                      [["open", 1, 1, "-"], ["inner"]]],
             "bytes": [[["next", "fresh"]] * 3, [["mdi", "-"]] * 6 + [["next", "fresh"]] * 3, [["nextk", "new:9:9:9", "views"]] * 3]}
    for rnd in range(x.n(1, 24)):
        cases = []
        for i in range(x.n(24000, 40000)):
            handle, b = nasty(x, fs, ss, ms, hs)
            ops = x.rng.choice(usual[handle] if x.rng.random() < .6 else hist[handle])
            kind = "flac" if handle == "none" else BYTE_KINDS[i % 4]
            faults, chunks = [], []
            if kind in ("flac", "buf", "mbuf") and x.rng.random() < .25:
                at = sorted(x.rng.randrange(len(b) + 1) for _ in range(x.rng.randrange(1, 4)))
                faults = [(p, "eof" if x.rng.random() < .4 else fault_kind(k)) for k, p in enumerate(at)]
            if x.rng.random() < .2:
                chunks = [x.rng.randrange(1, 40)]
            cases.append(Case("%d-%d" % (rnd, i), b, ops, kind=kind, faults=faults, chunks=chunks, quiet=True))
        x.trace("hostile sources, any history" + (" %d" % rnd if rnd else ""), cases, **LIGHT)
    # Enormous inputs: more zero bits than an integer can count.
    M = 1 << 29
    cases = []
    h = b"\xff\xf8\x79\x08\x00\x0f\xff"
    h += bytes([crc8(h)])
    for name, lead in (("wasted", b"\x03"), ("rice", b"\x10\x00"), ("rice2", b"\x10\x40"), ("rice14", b"\x10\x38\x00")):
        cases.append(Case("zeros-" + name, [h + lead, (M + 8, 0), b"\xff" * 64], [["next", "fresh"]] * 2, kind="buf", quiet=True))
    cases.append(Case("zeros-unary", [(M + 1, 0), b"\xff"], [["unary"]] * 3, kind="buf", quiet=True))
    cases.append(Case("zeros-unary4", [b"\x01", (M - 1, 0), b"\x01\xff"], [["leq8", 4], ["unary"], ["unary"], ["unary"]], kind="buf", quiet=True))
    cases.append(Case("zeros-all", [(M + (1 << 20), 0)], [["unary"], ["u8e"]], kind="buf", quiet=True))
    big = (1 << 24) - 1
    cases.append(Case("long-blocks", [section([good_si(x)])[:4], b"\0" + section([good_si(x)])[5:]]
                      + [b for i in range(40) for b in (bytes([[1, 3, 5, 6, 9][i % 5]]) + big.to_bytes(3, "big"), (big, i))]
                      + [b"\x81\0\0\0"], [OPEN, ["next", "fresh"]], quiet=True))
    cases.append(Case("many-blocks", [section([good_si(x)])[:4], b"\0" + section([good_si(x)])[5:], (1 << 24, 1)], [OPEN], quiet=True))
    for i, n in enumerate([0, 1, 2047, 2048, 2049, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 1]):
        cases.append(Case("skip%d" % i, [(5000, 7)], [["md", [1, 3, 5, 6, 60][i % 5], n, "-"], ["u8e"], ["skip", n], ["u8e"], ["skip", 3]],
                          kind=BYTE_KINDS[i % 4], quiet=True))
    x.trace("enormous inputs", cases, limit_ms=150000, **LIGHT)
    # Cursors that begin anywhere.
    cases = []
    for i in range(x.n(1500, 15000)):
        handle, b = nasty(x, fs, ss, ms, hs)
        at = x.rng.choice([0, len(b) - 1, len(b), len(b) + 1, 1 << 31, 1 << 32, 1 << 63, (1 << 64) - x.rng.randrange(1, 50), x.rng.randrange(len(b) + 1)])
        ops = x.rng.choice(usual["bytes"] + hist["bytes"][:40] + [[["md", t, n, "-"]] * 2 for t in (0, 1, 2, 4, 9) for n in (0, 5, 34, 1 << 20)])
        cases.append(Case("a%d" % i, b, ops, kind="%s@%d" % (["cur", "mcur"][i % 2], max(0, at)), quiet=True))
    x.trace("cursors that begin anywhere", cases, **LIGHT)
    # The same documented misuses, and everything else on well-formed streams.
    cases = []
    for i, s in enumerate(ss):
        b = stream_bytes(s)
        for j in range(x.n(8, 20)):
            cases.append(Case("w%d-%d" % (i, j), b, x.rng.choice(hist["none"]), quiet=True, chunks=[[], [1], [9]][j % 3]))
    x.trace("well-formed streams, any history", cases, **LIGHT)


def revalidate(cases, res, how):
    """One recorded violation again."""
    how = dict(how)
    prop = how.pop("prop")
    record = vlib.light_record if how["module"] == "Light" else vlib.trace_record
    if how["module"] == "Rel":
        recs = [{"id": "0", "runs": [res[c.id] for c in cases]}]
    else:
        recs = [record(c, res[c.id]) for c in cases]
    return vlib.validate(recs, prop, **how)


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10,
          "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17}
