"""Plumbing: build and run the driver, run TLC, validate recorded runs."""
import copy, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
REPLAY = os.path.join(VERIF, "replay")
REPO = "/repo"
DRIVER = os.path.join(BUILD, "target", "release", "claxon-driver")
PLAIN = os.path.join(BUILD, "target", "plain", "claxon-driver")
CORES = os.cpu_count() or 4
PATIENCE = 800      # seconds for one run of TLC
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """Something of ours does not work; never to be mistaken for a violation."""


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        os.makedirs(os.path.join(BUILD, "run"), exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="r", dir=os.path.join(BUILD, "run"))
    return _scratch


def cleanup():
    global _scratch
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None


# ------------------------------------------------------------------ building

def build_driver():
    """The recorder, twice: with arithmetic checked and assertions on, and as usually built."""
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_NET_OFFLINE="true")
    ps = [subprocess.Popen(["cargo", "build", "--profile", p, "--offline", "--quiet"],
                           cwd=os.path.join(VERIF, "driver"), env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, universal_newlines=True) for p in ("release", "plain")]
    for p in ps:
        out, _ = p.communicate()
        if p.returncode != 0:
            raise ToolError("driver does not build:\n" + out[-4000:])


# --------------------------------------------------------------------- cases

class Case:
    """A source and the calls to make on it."""

    def __init__(self, id, data, ops, kind="flac", faults=(), chunks=(), poison=None, quiet=False, **info):
        self.id, self.data, self.kind = id, data, kind
        self.ops = [list(o) for o in ops]     # driver words
        self.faults = list(faults)            # (position, kind)
        self.chunks = list(chunks)
        self.poison, self.quiet = poison, quiet
        self.info = info                      # extra fields for the trace
        self.opinfo = {}                      # op index -> extra fields

    def segs(self):
        if isinstance(self.data, (bytes, bytearray)):
            return [self.data.hex()] if self.data else []
        return [s.hex() if isinstance(s, (bytes, bytearray)) else "%s%dx%02x" % ("~" if len(s) == 3 else "*", s[0], s[1]) for s in self.data if s]

    def raw(self):
        if isinstance(self.data, (bytes, bytearray)):
            return bytes(self.data)
        return b"".join(s if isinstance(s, (bytes, bytearray)) else bytes([s[1]]) * s[0] for s in self.data
                        if not (isinstance(s, tuple) and len(s) == 3))

    def holes(self):
        """Segments (n, byte, "hole") are left out of what the specification sees."""
        out, at, real = [], 0, 0
        for s in [] if isinstance(self.data, (bytes, bytearray)) else self.data:
            n = len(s) if isinstance(s, (bytes, bytearray)) else s[0]
            if isinstance(s, tuple) and len(s) == 3:
                out.append({"at": at, "n": n, "real": real})
            else:
                at += n
            real += n
        return out

    def script(self):
        out = ["C " + self.id, "S " + self.kind]
        segs = self.segs()
        if segs:
            out.append("B " + " ".join(segs))
        if self.faults:
            out.append("F " + " ".join("%d:%s" % f for f in self.faults))
        if self.chunks:
            out.append("K " + ",".join(map(str, self.chunks)))
        if self.poison is not None:
            out.append("P %02x" % self.poison)
        if self.quiet:
            out.append("Q")
        for o in self.ops:
            out.append("O " + " ".join(map(str, o)))
        out.append("E")
        return "\n".join(out) + "\n"


def case_from_script(text):
    """The inverse of Case.script."""
    c = None
    for line in text.split("\n"):
        f = line.split(" ")
        if f[0] == "C":
            c = Case(f[1], b"", [])
        elif f[0] == "S":
            c.kind = f[1]
        elif f[0] == "B":
            c.data = [(int(s[1:].split("x")[0]), int(s.split("x")[1], 16)) + (("hole",) if s[0] == "~" else ()) if s[0] in "*~" else bytes.fromhex(s) for s in f[1:]]
            if all(isinstance(s, bytes) for s in c.data):
                c.data = b"".join(c.data)
        elif f[0] == "F":
            c.faults = [(int(s.split(":")[0]), s.split(":", 1)[1]) for s in f[1:]]
        elif f[0] == "K":
            c.chunks = [int(s) for s in f[1].split(",")]
        elif f[0] == "P":
            c.poison = int(f[1], 16)
        elif f[0] == "Q":
            c.quiet = True
        elif f[0] == "O":
            c.ops.append(f[1:])
    return c


def driver_batch(cases, limit_ms, mem_gb, exe):
    """Runs cases in order; a crash or hang becomes the outcome of its case."""
    res, todo = {}, list(cases)
    while todo:
        env = dict(os.environ, DRIVER_LIMIT_MS=str(limit_ms))
        d = tempfile.mkdtemp(prefix="d", dir=scratch())
        env["DRIVER_SCRATCH"] = d
        cmd = "ulimit -v %d; exec %s" % (mem_gb * 1024 * 1024, exe)
        p = subprocess.Popen(["bash", "-c", cmd], env=env, stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        out, errs = p.communicate("".join(c.script() for c in todo).encode())
        shutil.rmtree(d, ignore_errors=True)
        started = None
        for line in out.decode().split("\n"):
            if not line.endswith("}"):
                continue
            j = json.loads(line)
            if "start" in j:
                started = j["start"]
            else:
                res[j["id"]] = j["res"]
                started = None
        if p.returncode == 0:
            break
        if started is None:
            raise ToolError("driver failed (%d): %s" % (p.returncode, errs.decode()[-800:]))
        if p.returncode == 101:
            raise ToolError("driver script error in %s: %s" % (started, errs.decode()[-800:]))
        k = "hang" if p.returncode == 97 else "crash"
        res[started] = [{"k": k, "code": p.returncode, "pulled": 0, "peak": 0}]
        at = [i for i, c in enumerate(todo) if c.id == started][0]
        todo = todo[at + 1:]
    return res


def run_driver(cases, limit_ms=20000, mem_gb=3, exe=None):
    if len({c.id for c in cases}) != len(cases):
        raise ToolError("duplicate case ids")
    n = max(1, min(CORES, len(cases) // 20 + 1))
    parts = [cases[i::n] for i in range(n)]
    res = {}
    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(lambda p: driver_batch(p, limit_ms, mem_gb, exe or DRIVER), parts):
            res.update(r)
    missing = [c.id for c in cases if c.id not in res]
    if missing:
        raise ToolError("no result for " + missing[0])
    return res


def visible(res):
    """An outcome without what may depend on the build."""
    return [{k: w for k, w in o.items() if k not in ("mem", "peak")} for o in res]


def run_both(cases, limit_ms=20000):
    """Runs cases in both builds: the outcomes of the first, and those of the
    second for the cases in which it behaves differently."""
    res = run_driver(cases, limit_ms)
    other = run_driver(cases, limit_ms, exe=PLAIN)
    return res, {c.id: other[c.id] for c in cases if visible(other[c.id]) != visible(res[c.id])}


def plain(case):
    c = copy.copy(case)
    c.id += "~plain"
    return c


# ----------------------------------------------------------------------- TLC

def tlc(module, cfg, env=None, workers=None, args=(), heap="6g", timeout=None, name=None):
    """Runs TLC on spec/<module>.tla with the given configuration text."""
    d = tempfile.mkdtemp(prefix="t", dir=scratch())
    cfgp = os.path.join(d, "M.cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss256m", "-Djava.io.tmpdir=" + d, "-Xmx" + heap, "-cp", JARS, "tlc2.TLC",
           "-metadir", os.path.join(d, "states"), "-config", cfgp,
           "-workers", str(workers or CORES), "-noGenerateSpecTE", "-deadlock",
           *args, os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    outp = os.path.join(d, "out")
    with open(outp, "w") as f:
        try:
            r = subprocess.run(cmd, cwd=d, env=dict(os.environ, **(env or {})), stdout=f,
                               stderr=subprocess.STDOUT, timeout=timeout or PATIENCE)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + module)
    text = open(outp, errors="replace").read()
    m = None
    for m in re.finditer(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", text):
        pass
    shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    return {"code": r.returncode, "out": text, "wall": time.time() - t0,
            "states": int(m.group(1).replace(",", "")) if m else 0,
            "distinct": int(m.group(2).replace(",", "")) if m else 0, "cmd": " ".join(cmd[5:])}


def tlc_ok(r, what):
    if r["code"] != 0:
        raise ToolError("TLC failed on %s (%d):\n%s" % (what, r["code"], r["out"][-3000:]))
    return r


def printed(text, tag):
    """The strings printed with PrintT that start with the tag."""
    out = []
    for line in text.split("\n"):
        if line.startswith('"' + tag + " "):
            out.append(json.loads(line)[len(tag) + 1:])
    return out


# --------------------------------------------------------------- validation

def op_record(words, res):
    w = words
    o = {"op": w[0], "res": res}
    if w[0] == "open":
        o["only"], o["keep"] = w[1] == "1", w[2] == "1"
    elif w[0] in ("iter", "take", "itake", "into", "skip", "leq8", "gt8", "leq16", "leq32"):
        o["n"] = int(w[1])
        if len(w) > 2:      # skip <real amount> <amount without holes> <holes>
            o["n"], o["over"] = int(w[2]), int(w[3])
    elif w[0] == "md":
        o["ty"], o["len"] = int(w[1]), int(w[2])
    elif w[0] == "sub":
        o["bps"], o["bs"] = int(w[1]), int(w[2])
    elif w[0] == "misuse":
        o["how"] = w[1]
    return o


def trace_record(case, res):
    raw = case.raw()
    ops = []
    for i, (w, r) in enumerate(zip(case.ops, res)):
        o = op_record([str(x) for x in w], r)
        o.update(case.opinfo.get(i, {}))
        ops.append(o)
    rec = {"id": case.id, "bytes": list(raw), "ops": ops,
           "faults": [{"at": a, "kind": k} for a, k in case.faults]}
    holes = case.holes()
    if holes:
        for f in rec["faults"]:
            f["at"] -= sum(h["n"] for h in holes if h["real"] < f["at"])
        rec["holes"] = [{"at": h["at"], "n": min(h["n"], 0x7fffffff)} for h in holes]
    if "@" in case.kind:
        rec["start"] = min(int(case.kind.split("@")[1]), len(raw) + 1)
    rec.update(case.info)
    return rec


def light_record(case, res):
    """A run whose source is not looked at."""
    n = 0
    for s in ([case.data] if isinstance(case.data, (bytes, bytearray)) else case.data):
        n += len(s) if isinstance(s, (bytes, bytearray)) else s[0]
    return {"id": case.id, "kind": case.kind.split("@")[0], "len": min(n, 0x7fffffff),
            "ops": [op_record([str(x) for x in w], r) for w, r in zip(case.ops, res)]}


def write_nd(path, recs):
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")


class Validation:
    def __init__(self):
        self.cases = 0
        self.obligations = 0
        self.calls = 0
        self.states = 0
        self.distinct = 0
        self.violations = []   # (case id, report text)
        self.vacuous = []      # cases that met no obligation
        self.per_case = {}
        self.wall = 0.0


def weight(rec):
    if "runs" in rec:
        return sum(60 + len(json.dumps(o)) // 4 for r in rec["runs"] for o in r)
    return len(rec.get("bytes", ())) + sum(60 + len(json.dumps(o["res"])) // 4 for o in rec["ops"])


def validate(recs, prop, module="Trace", spec="TraceSpec", invs=("Conforms", "RoundTrip", "Sane"),
             consts=(), max_violations=3, timeout=None, shards=None, view="Progress", tool_invs=("RoundTrip", "Sane")):
    """Checks recorded runs with TLC.  Every case has to be examined to its end."""
    v = Validation()
    t0 = time.time()
    cfg = "SPECIFICATION %s\nCONSTANT Prop = \"%s\"\n" % (spec, prop)
    for c in consts:
        cfg += "CONSTANT %s\n" % c
    cfg += "".join("INVARIANT %s\n" % i for i in invs) + "ALIAS Report\n" + ("VIEW %s\n" % view if view else "")
    # Several TLC processes: initial states and JSON parsing are sequential.
    total = sum(weight(r) for r in recs)
    n = shards or max(1, min(CORES // 2, total // 60000 + 1))
    parts = [[] for _ in range(n)]
    load = [0] * n
    for r in sorted(recs, key=weight, reverse=True):
        i = load.index(min(load))
        parts[i].append(r)
        load[i] += weight(r)
    workers = max(1, CORES // n)

    def one(part):
        got = Validation()
        todo = part
        while todo:
            p = os.path.join(tempfile.mkdtemp(prefix="v", dir=scratch()), "trace.ndjson")
            write_nd(p, todo)
            r = tlc(module, cfg, env={"TRACE_FILE": p}, workers=workers, timeout=timeout,
                    heap="%dm" % (16000 // n))
            os.unlink(p)
            got.states += r["states"]
            got.distinct += r["distinct"]
            over = {}
            for line in printed(r["out"], "OVER"):
                f = line.split(" ")
                over[f[0]] = (int(f[1]), int(f[2]))
            bad = None
            m = re.search(r"Invariant (\w+) is violated", r["out"])
            if m:
                # With the ALIAS every state shows the case it belongs to.
                ids = re.findall(r'id = "([^"]*)"', r["out"])
                if not ids:
                    raise ToolError("no case in counterexample:\n" + r["out"][-3000:])
                bad = ids[-1]
                call = re.findall(r'call = (\d+)', r["out"])[-1]
                expd = re.findall(r'expected = "(.*)"', r["out"])
                if m.group(1) in tool_invs:
                    raise ToolError("specification inconsistent (%s) on case %s:\n%s"
                                    % (m.group(1), bad, r["out"][-2500:]))
                got.violations.append((bad, {"invariant": m.group(1), "call": int(call),
                                             "expected": expd[-1] if expd else ""}))
            elif r["code"] != 0:
                raise ToolError("TLC failed on %s (%d):\n%s" % (module, r["code"], r["out"][-3000:]))
            for k, x in over.items():
                got.per_case[k] = x
            if bad is None:
                missing = [c["id"] for c in todo if c["id"] not in over]
                if missing:
                    raise ToolError("case not examined to its end: " + missing[0])
                break
            if len(got.violations) >= max_violations:
                break
            todo = [c for c in todo if c["id"] != bad and c["id"] not in over]
        return got

    with ThreadPoolExecutor(n) as ex:
        for g in ex.map(one, parts):
            v.violations += g.violations
            v.per_case.update(g.per_case)
            v.states += g.states
            v.distinct += g.distinct
    v.cases = len(v.per_case)
    v.obligations = sum(o for o, _ in v.per_case.values())
    v.calls = sum(c for _, c in v.per_case.values())
    v.vacuous = [k for k, (o, _) in v.per_case.items() if o == 0]
    v.wall = time.time() - t0
    return v
