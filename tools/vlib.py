"""Shared machinery: run TLC on the specifications, turn the transitions it
prints into behaviours, replay them on the real code, report."""
import hashlib, json, os, random, re, shutil, subprocess, sys, time
from collections import deque

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
REPO = "/repo"
EVID = os.path.join(VERIF, "evidence")


class CheckError(Exception):
    """The check itself could not run (exit code 2)."""


def go_env():
    e = dict(os.environ)
    e.update(PATH="/opt/veriftools/go1.24.13/bin:" + e.get("PATH", ""), GOTOOLCHAIN="local", GOPROXY="off",
             GOFLAGS="-mod=mod", GOWORK="off", GOEXPERIMENT="synctest", HOME="/root", GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
    return e


_built = {}


class GenError(Exception):
    """The code generator does not produce usable code."""


GEN_IMPORT = "github.com/aperturerobotics/starpc"


def generate(src):
    """Run the current generator on zoo/*.proto and the repository's own
    definitions; returns the overlay of regenerated files."""
    d = os.path.join(BUILD, "gen%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    inc, out = os.path.join(d, "inc"), os.path.join(d, "out")
    os.makedirs(os.path.join(inc, os.path.dirname(GEN_IMPORT)))
    os.makedirs(os.path.join(inc, "zoo"))
    os.makedirs(out)
    os.symlink(REPO, os.path.join(inc, GEN_IMPORT))
    zoo = sorted(f for f in os.listdir(os.path.join(src, "zoo")) if f.endswith(".proto"))
    for f in zoo:
        shutil.copy(os.path.join(src, "zoo", f), os.path.join(inc, "zoo"))
    env = go_env()
    env["GOFLAGS"] = "-mod=readonly"
    plug = os.path.join(d, "protoc-gen-go-starpc")
    r = subprocess.run(["go", "build", "-buildvcs=false", "-o", plug, "./cmd/protoc-gen-go-starpc"], cwd=REPO, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError("the generator does not build:\n" + r.stdout[-3000:])
    m = ["%s/echo/echo.proto=%s/echo" % (GEN_IMPORT, GEN_IMPORT), "%s/mock/mock.proto=%s/mock;e2e_mock" % (GEN_IMPORT, GEN_IMPORT),
         "%s/rpcstream/rpcstream.proto=%s/rpcstream" % (GEN_IMPORT, GEN_IMPORT),
         "google/protobuf/empty.proto=github.com/aperturerobotics/protobuf-go-lite/types/known/emptypb"]
    r = subprocess.run(["protoc", "-I", inc, "-I", "/usr/include", "--plugin=" + plug, "--go-starpc_out=" + out,
                        "--go-starpc_opt=" + ",".join("M" + x for x in m)] + ["zoo/" + f for f in zoo]
                       + [GEN_IMPORT + "/echo/echo.proto", GEN_IMPORT + "/mock/mock.proto"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise GenError("the generator failed:\n" + r.stdout[-3000:])
    over = {}
    for root, _, files in os.walk(out):
        for f in files:
            rel = os.path.relpath(os.path.join(root, f), out)
            if rel.startswith(GEN_IMPORT + "/"):
                over[os.path.join(REPO, rel[len(GEN_IMPORT) + 1:])] = os.path.join(root, f)
            else:
                shutil.copy(os.path.join(root, f), os.path.join(src, "zoo"))
    want = {os.path.join(REPO, "echo/echo_srpc.pb.go"), os.path.join(REPO, "mock/mock_srpc.pb.go")}
    if set(over) != want:
        raise GenError("the generator produced other files: %s" % sorted(over))
    return d, over


def build_harness(variant=""):
    """Build the harness against /repo's working tree.
    variant: "" | "race" | "regen" (with regenerated stubs)"""
    if variant in _built:
        return _built[variant]
    if variant:
        build_harness()   # a failure below is then due to the variant
    os.makedirs(BUILD, exist_ok=True)
    suffix = ("-" + variant if variant else "") + "." + str(os.getpid())
    src = os.path.join(BUILD, "hsrc" + suffix)
    shutil.rmtree(src, ignore_errors=True)
    shutil.copytree(os.path.join(VERIF, "harness"), src)
    out = os.path.join(BUILD, "harness" + suffix)
    cmd = ["go", "build", "-o", out]
    tmp = []
    t = time.time()
    try:
        if variant.endswith("race"):
            cmd.append("-race")
        if variant.startswith("woven"):
            d = os.path.join(BUILD, "weave%d" % os.getpid())
            tmp.append(d)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            r = subprocess.run(["go", "run", "./weave", d, os.path.join(d, "overlay.json"), os.path.join(REPO, "srpc"), os.path.join(REPO, "rpcstream")],
                               cwd=src, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise CheckError("weave:\n" + r.stdout[-3000:])
            cmd += ["-tags", "woven", "-overlay", os.path.join(d, "overlay.json")]
        if variant == "regen":
            d, over = generate(src)
            tmp.append(d)
            with open(os.path.join(d, "overlay.json"), "w") as f:
                json.dump({"Replace": over}, f)
            cmd += ["-tags", "zoo", "-overlay", os.path.join(d, "overlay.json")]
        r = subprocess.run(cmd + ["."], cwd=src, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        for d in [src] + tmp:
            shutil.rmtree(d, ignore_errors=True)
    if r.returncode != 0:
        if variant == "regen":
            raise GenError("the generated code does not fit the definitions:\n" + r.stdout[-4000:])
        raise CheckError("harness does not build against /repo:\n" + r.stdout[-4000:])
    _built[variant] = out
    log("built harness %s in %.1fs" % (variant, time.time() - t))
    return out


def cleanup():
    for p in _built.values():
        try:
            os.remove(p)
        except OSError:
            pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def tla(v):
    """Python value -> TLA+ literal."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    raise ValueError(v)


def cfg_text(consts, spec="Spec", invariants=(), properties=(), dump=True, constraints=(), view="View"):
    l = ["SPECIFICATION " + spec, "CHECK_DEADLOCK FALSE"]
    if view:
        l.append("VIEW " + view)
    l.append("CONSTANTS")
    subst = []
    for k, v in sorted(consts.items()):
        # structured values need a definition
        if isinstance(v, (list, tuple)):
            subst.append((k, v))
            l.append("  %s <- MC_%s" % (k, k))
        else:
            l.append("  %s = %s" % (k, tla(v)))
    for i in invariants:
        l.append("INVARIANT " + i)
    for p in properties:
        l.append("PROPERTY " + p)
    for c in constraints:
        l.append("CONSTRAINT " + c)
    if dump:
        l.append("ACTION_CONSTRAINT Dump")
    return "\n".join(l) + "\n", subst


def run_tlc(module, consts, mode=None, dump=True, invariants=(), properties=(), constraints=(), spec="Spec",
            seed=1, timeout=800, heap="8g", workers=8, view="View", extra=""):
    """Run TLC; returns (lines printed by the specification, statistics)."""
    text, subst = cfg_text(consts, spec, invariants, properties, dump, constraints, view)
    key = hashlib.sha256((module + text + repr(mode) + repr(subst) + extra + str(os.getpid())).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "tlc", module + "-" + key)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    mc = "---- MODULE MC ----\nEXTENDS %s\n" % module
    for k, v in subst:
        mc += "MC_%s == %s\n" % (k, tla(v))
    mc += extra + "\n====\n"
    open(os.path.join(d, "MC.tla"), "w").write(mc)
    open(os.path.join(d, "MC.cfg"), "w").write(text)
    cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp",
           "/opt/veriftools/tla/tla2tools.jar:" + tla_modules_cp(), "tlc2.TLC", "-metadir", os.path.join(d, "meta"),
           "-noGenerateSpecTE"]
    if mode and mode[0] == "sim":
        cmd += ["-simulate", "num=%d" % mode[1], "-depth", str(mode[2]), "-seed", str(seed), "-workers", "1"]
    else:
        cmd += ["-workers", str(workers), "-fp", "1"]
    cmd += ["-config", "MC.cfg", "MC.tla"]
    t = time.time()
    out = os.path.join(d, "out")
    with open(out, "w") as f:
        try:
            r = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC did not finish in %ds" % timeout)
    lines, other = [], []
    with open(out) as f:
        for line in f:
            if line.startswith('"['):
                lines.append(line)
            else:
                other.append(line)
    text = "".join(other)
    shutil.rmtree(d, ignore_errors=True)
    st = {"wall_s": round(time.time() - t, 1), "rc": r.returncode}
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
    if m:
        st["generated"], st["states"] = int(m.group(1)), int(m.group(2))
    m = re.search(r"The number of states generated: (\d+)", text)
    if m:
        st["generated"] = int(m.group(1))
    m = re.search(r"depth of the complete state graph search is (\d+)", text)
    if m:
        st["depth"] = int(m.group(1))
    st["text"] = text
    return lines, st


def tla_modules_cp():
    d = "/opt/veriftools/tla"
    return ":".join(os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar") and f != "tla2tools.jar")


class Graph:
    """Transitions printed by a specification."""

    def __init__(self, lines):
        self.edges = []      # (u, v, a, o)
        self.over = {}
        self.root = None
        out = {}             # state -> transitions, by label
        root = None
        for line in set(lines):
            r = json.loads(json.loads(line.strip()))
            if r[0] == "init":
                root = tuple(r[1])
                continue
            for ob in r[3]:
                if isinstance(ob, dict) and isinstance(ob.get("r"), list):
                    ob["r"].sort()
            out.setdefault(tuple(r[0]), []).append((json.dumps(r[2:4]), tuple(r[1]), r))
        # TLC's fingerprints differ from run to run: number the states in the
        # order of a search which follows the labels
        ids = {}
        if root is not None:
            self.root = ids[root] = 0
            q = deque([root])
            while q:
                u = q.popleft()
                for _, v, r in sorted(out.get(u, ()), key=lambda x: (x[0], str(x[2]))):
                    if v not in ids:
                        ids[v] = len(ids)
                        q.append(v)
                    self.edges.append((ids[u], ids[v], r[2], r[3]))
                    self.over[ids[v]] = bool(r[4]) if len(r) > 4 else False
        if self.root is None:
            raise CheckError("specification printed no initial state")
        self.n = len(ids)
        self.out = [[] for _ in range(self.n)]
        for i, e in enumerate(self.edges):
            self.out[e[0]].append(i)

        self._l1, self._l2 = {}, {}

    def label1(self, e):
        """The operation of a transition."""
        if e not in self._l1:
            self._l1[e] = json.dumps(self.edges[e][2])
        return self._l1[e]

    def label2(self, e):
        """The operation of a transition and what is observed."""
        if e not in self._l2:
            self._l2[e] = json.dumps(self.edges[e][2:4])
        return self._l2[e]

    def bfs(self, rng):
        parent = {self.root: -1}
        order = []
        q = deque([self.root])
        while q:
            u = q.popleft()
            order.append(u)
            l = self.out[u][:]
            rng.shuffle(l)
            for i in l:
                v = self.edges[i][1]
                if v not in parent:
                    parent[v] = i
                    q.append(v)
        return parent, order

    def cover(self, seed=1, maxlen=60):
        """Paths from the root that together take every transition."""
        rng = random.Random(seed)
        parent, order = self.bfs(rng)
        done = bytearray(len(self.edges))
        ptr = [0] * self.n
        outs = [l[:] for l in self.out]
        for l in outs:
            rng.shuffle(l)
        paths = []

        def uncovered(u):
            l = outs[u]
            while ptr[u] < len(l) and done[l[ptr[u]]]:
                ptr[u] += 1
            return l[ptr[u]] if ptr[u] < len(l) else None

        # deepest first: long paths cover their prefixes
        for u in reversed(order):
            while True:
                e = uncovered(u)
                if e is None:
                    break
                pre = []
                x = u
                while x != self.root:
                    i = parent[x]
                    pre.append(i)
                    x = self.edges[i][0]
                pre.reverse()
                path = pre
                cur = e
                while cur is not None:
                    path.append(cur)
                    done[cur] = 1
                    if len(path) >= maxlen:
                        break
                    cur = uncovered(self.edges[cur][1])
                for i in path:
                    done[i] = 1
                paths.append(path)
        return paths

    def walks(self, num, maxlen, seed):
        rng = random.Random(seed)
        res = []
        for _ in range(num):
            u, path = self.root, []
            while self.out[u] and len(path) < maxlen:
                i = rng.choice(self.out[u])
                path.append(i)
                u = self.edges[i][1]
            if path:
                res.append(path)
        return res

    def beh(self, path):
        steps = [{"a": self.edges[i][2], "o": self.edges[i][3]} for i in path]
        return {"steps": steps, "over": self.over.get(self.edges[path[-1]][1], False)}


def load_graph(module, consts, mode=None, seed=1, invariants=(), constraints=(), extra="", cache=True):
    """Graph of a specification, cached by content within /verif/.build."""
    src = "".join(open(os.path.join(SPEC, f)).read() for f in sorted(os.listdir(SPEC)) if f.endswith(".tla"))
    key = hashlib.sha256(repr((src, module, sorted(consts.items(), key=str), mode, seed if mode else 0, invariants,
                               constraints, extra)).encode()).hexdigest()[:20]
    path = os.path.join(BUILD, "graphs", module + "-" + key)
    if cache and os.path.exists(path):
        with open(path) as f:
            st = json.loads(f.readline())
            lines = f.readlines()
    else:
        lines, st = run_tlc(module, consts, mode, True, invariants, (), constraints, seed=seed, extra=extra)
        text = st.pop("text")
        if st["rc"] != 0 or (mode is None and "states" not in st):
            raise CheckError("TLC failed on %s (rc %s):\n%s" % (module, st["rc"], text[-3000:]))
        lines = sorted(set(lines))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        tmp = path + ".%d" % os.getpid()
        with open(tmp, "w") as f:
            f.write(json.dumps(st) + "\n")
            f.writelines(lines)
        os.rename(tmp, path)
    g = Graph(lines)
    g.stats = st
    return g


def run_harness(suite, behs, seed, opt, variant="", maxt=600, timeout=30, workers=8, tries=12, only=None):
    exe = build_harness(variant)
    d = os.path.join(BUILD, "run")
    os.makedirs(d, exist_ok=True)
    stamp = "%s-%d-%d" % (suite, os.getpid(), time.monotonic_ns())
    bf, of = os.path.join(d, stamp + ".beh"), os.path.join(d, stamp + ".out")
    with open(bf, "w") as f:
        for b in behs:
            f.write(json.dumps(b, separators=(",", ":")) + "\n")
    cmd = [exe, "run", "-suite", suite, "-beh", bf, "-seed", str(seed), "-out", of, "-max", str(maxt),
           "-timeout", str(timeout), "-workers", str(workers), "-tries", str(tries)]
    if only is not None:
        cmd += ["-only", str(only)]
    for k, v in sorted(opt.items()):
        cmd += ["-opt", "%s=%s" % (k, v)]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=maxt + 300, env=go_env())
    except subprocess.TimeoutExpired:
        raise CheckError("harness did not finish")
    finally:
        os.remove(bf)
    if r.returncode != 0 or not os.path.exists(of):
        raise CheckError("harness failed (rc %d): %s" % (r.returncode, r.stdout[-3000:]))
    res = json.load(open(of))
    os.remove(of)
    return res


def check_histories(module, consts, hists, spec="HSpec", timeout=800):
    """Indices of the recorded executions the specification does not explain."""
    d = os.path.join(BUILD, "run")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "hist-%d-%d.json" % (os.getpid(), time.monotonic_ns()))
    with open(path, "w") as f:
        json.dump(hists, f)
    try:
        lines, st = run_tlc(module, dict(consts, HistFile=path), dump=False, spec=spec, view=None, timeout=timeout)
    finally:
        os.remove(path)
    text = st.pop("text")
    if st["rc"] != 0 or "states" not in st:
        raise CheckError("TLC failed on %s (rc %s):\n%s" % (module, st["rc"], text[-3000:]))
    ok = {json.loads(json.loads(l.strip()))[1] - 1 for l in lines}
    return [i for i in range(len(hists)) if i not in ok], st


def show_history(h):
    out = []
    for e in h["log"]:
        if e[0] in ("i", "r"):
            o = h["ops"][e[1] - 1]
            arg = [str(o[k]) for k in ("d", "s", "m", "ms", "n") if o.get(k)]
            out.append("%s%d:%s%s%s" % ("+" if e[0] == "i" else "-", e[1], o["k"], "(%s)" % ",".join(arg) if arg else "",
                                        "=" + o["r"] if e[0] == "r" else ""))
        else:
            out.append("[%s]" % e[0])
    return " ".join(out)


def probe(what):
    """Measure a constant of the implementation."""
    r = subprocess.run([build_harness(), "probe", what], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120, env=go_env())
    try:
        return int(r.stdout.strip().splitlines()[-1])
    except (ValueError, IndexError):
        raise CheckError("probe %s: %s" % (what, r.stdout[-2000:]))
