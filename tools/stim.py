"""Stimuli.  What they are made of comes from TLC running the generator
specifications; here they are only put together, cut, damaged and scheduled.
Nothing in this file knows what the outcome of a call should be."""
import json, random
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import Case, CORES, tlc, tlc_ok, printed


def generate(jobs):
    """jobs: (module, constants, behaviour spec, seed).  Results per job."""
    def one(job):
        module, consts, spec, seed = job
        cfg = "CONSTANTS " + "\n".join("%s = %s" % (k, json.dumps(v) if isinstance(v, str) else v)
                                       for k, v in consts.items()) + "\nSPECIFICATION %s\n" % spec
        # -fp would otherwise be chosen at random, and with it the random values
        r = tlc_ok(tlc(module, cfg, workers=1, args=["-seed", str(seed), "-fp", "0"], heap="2g"), module)
        return [json.loads(x) for x in printed(r["out"], "CASE")]
    with ThreadPoolExecutor(CORES) as ex:
        return list(ex.map(one, jobs))


def frames(profile, count, seed, lanes=None):
    lanes = lanes or min(CORES, max(1, count // 20))
    per = -(-count // lanes)
    out = generate([("GenFrames", {"Count": per, "Lane": i * per, "Profile": profile}, "Spec", seed * 1000 + i)
                    for i in range(lanes)])
    return [f for part in out for f in part][:count]


def streams(profile, count, seed, lanes=None):
    lanes = lanes or min(CORES, max(1, count // 4))
    per = -(-count // lanes)
    out = generate([("GenStreams", {"Count": per, "Lane": i * per, "Profile": profile}, "StreamSpec", seed * 1000 + i)
                    for i in range(lanes)])
    return [s for part in out for s in part][:count]


HOSTILE = ("codes code1 code2 sync number cont size subtype wasted rice escape porder lpc order second").split()


def hostile(strides, seed):
    """strides: family -> stride.  (family, item) pairs."""
    jobs = []
    for f, stride in strides.items():
        parts = 8 if f == "cross" else 4 if f == "codes" and stride < 10 else 1
        for p in range(parts):
            jobs.append(("GenHostile", {"Family": f, "Stride": stride * parts,
                                        "Offset": seed % stride + p * stride}, "Spec", seed * 1000 + p if f == "cross" else seed))
    return [(j[1]["Family"], x) for j, part in zip(jobs, generate(jobs)) for x in part]


META = "si sirand silen vcrand vcbytes vcutf8 vclen vchuge vcshort seq seqrand types".split()


def metas(families, count, seed, strides={}):
    jobs = [("GenMeta", {"Family": f, "Stride": strides.get(f, 1), "Offset": seed % strides.get(f, 1), "Count": count},
             "Spec", seed) for f in families]
    return [(j[1]["Family"], x) for j, part in zip(jobs, generate(jobs)) for x in part]


def reads(family, count, seed, stride=1, lanes=4):
    """Histories of byte or bit reads, as cases."""
    jobs = []
    for i in range(lanes):
        c = {"Family": family, "Stride": stride * lanes, "Offset": seed % stride + i * stride, "Count": count}
        if family.endswith("rand"):
            c.update(Stride=1, Offset=0, Count=-(-count // lanes))
        jobs.append(("GenBytes", c, "Spec", seed * 1000 + i))
    out = []
    for i, part in enumerate(generate(jobs)):
        for g in part:
            out.append(Case("%s-%d-%d" % (family, i, g["n"]), bytes(g["bytes"]),
                            [[o["op"]] + ([o["n"]] if "n" in o else []) for o in g["ops"]], kind=g["kind"],
                            faults=[(f["at"], f["kind"]) for f in g["faults"]], chunks=g["chunks"]))
    return out


def histories(handle, count, seed):
    """Call histories the protocol allows."""
    return generate([("GenCalls", {"Count": count, "Handle": handle}, "Spec", seed)])[0]


CLIENT = """SPECIFICATION Spec
CONSTANT Input <- ClientInput
CONSTANTS Streams = {%s} Trouble = "%s" MaxCalls = %d Takes = {%s} Stride = %d Offset = %d Emit = TRUE
INVARIANTS Faithful Guarded Undamaged Ends Complete Before Resumed Advances Positioned Described Tiled Fused Printed
PROPERTY Returns
"""


def clients(trouble, calls, takes, stride, seed, streams=(1, 2, 3, 4)):
    """Everything a client can do in a few calls on small streams: the
    properties are checked on the model, and its histories returned as cases."""
    cfg = CLIENT % (", ".join(map(str, streams)), trouble, calls, ", ".join(map(str, takes)), stride, seed % stride)
    r = tlc_ok(tlc("Client", cfg), "Client")
    out = []
    for g in printed(r["out"], "CASE"):
        g = json.loads(g)
        n, ops = len(out), []
        for o in g["ops"]:
            if o[0] == "open":
                ops.append(["open", o[1], o[2], "-"])
            elif o[0] == "next":
                ops.append([["next", "nextk"][n % 2], ["keep", "fresh"][n // 2 % 2]])
            else:
                ops.append(o)
        out.append(Case("%s%d" % (trouble, n), bytes(g["bytes"]), ops, faults=[(f["at"], f["kind"]) for f in g["faults"]],
                        chunks=[[], [1], [3], [5, 1]][n % 4]))
    return out, r


def small(family, stride, offset):
    """Small subframes: round trip and soundness on the model, and the cases."""
    cfg = """SPECIFICATION Spec
CONSTANT Input <- SmallInput
CONSTANTS Family = "%s" Stride = %d Offset = %d Emit = TRUE
INVARIANTS RoundTrip Sound InRange Printed
PROPERTY Terminates
""" % (family, stride, offset % stride)
    r = tlc_ok(tlc("Small", cfg), "Small")
    out = []
    for g in printed(r["out"], "CASE"):
        g = json.loads(g)
        n = len(out)
        out.append(Case("%s%d" % (family, n), bytes(g["bytes"]), [["sub", g["bps"], g["bs"]]],
                        kind=["buf", "cur", "mbuf", "mcur"][n % 4]))
    return out, r


# ---------------------------------------------------------------- composition

def section(blocks, marker=True):
    out = b"fLaC" if marker else b""
    for i, b in enumerate(blocks):
        out += bytes([(128 if i == len(blocks) - 1 else 0) + b["ty"]]) + b["len"].to_bytes(3, "big") + bytes(b["body"])
    return out


def stream_bytes(s):
    return section(s["meta"]) + b"".join(bytes(f["bytes"]) for f in s["frames"])


def frame_case(id, f, kind="buf", **kw):
    c = Case(id, bytes(f["bytes"]), [["next", "fresh"], ["u8e"]], kind=kind, **kw)
    c.opinfo[0] = {"pcm": f["pcm"], "num": f["num"]}
    return c


def needles(g):
    return ",".join(bytes(x).hex() for x in g.get("needles", [])) or "-"


def plain_needles(s):
    """Names to look up in a generated stream."""
    return "41,4b,7A,61,"


def interleaved(f):
    return [x for t in zip(*f["pcm"]) for x in t]


# Checksums, to give damaged data the right ones.  A mistake here only makes a
# stimulus less interesting.
def crc8(b):
    c = 0
    for x in b:
        c ^= x
        for _ in range(8):
            c = (c << 1 ^ 0x107) if c & 0x80 else c << 1
    return c


def crc16(b):
    c = 0
    for x in b:
        c ^= x << 8
        for _ in range(8):
            c = (c << 1 ^ 0x18005) if c & 0x8000 else c << 1
    return c


def fix_footer(x):
    return x[:-2] + crc16(x[:-2]).to_bytes(2, "big")


def fix_header(x, hdrlen):
    return x[:hdrlen - 1] + bytes([crc8(x[:hdrlen - 1])]) + x[hdrlen:]


def flip(x, bit):
    y = bytearray(x)
    y[bit // 8] ^= 0x80 >> bit % 8
    return bytes(y)


KINDS = ["wouldblock", "timedout", "other", "connreset", "perm", "notfound", "invaliddata", "ueof", "brokenpipe"]


def fault_kind(i):
    return "%s#%d" % (KINDS[i % len(KINDS)], i)
