"""Model-based conformance checking: TLC explores the specification, its behaviours are stepped
through the real library, and logs of the real library are validated by TLC against the specification."""
import collections, concurrent.futures, hashlib, json, os, random, re, shutil, subprocess, sys, time
from urllib.parse import quote

import build as B

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
WORKERS = int(os.environ.get("VT_WORKERS", "8"))


class CheckError(Exception):
    pass


def canon(v):
    return json.dumps(v, sort_keys=True, separators=(",", ":"))


# ------------------------------------------------------------------ TLC

def cfg_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(cfg_value(x) for x in sorted(v, key=str)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join(f"{k} |-> {cfg_value(x)}" for k, x in v.items()) + "]"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(cfg_value(x) for x in v) + ">>"
    raise ValueError(v)


def constants(c):
    """definitions for the generated module, and their substitutions for the configuration"""
    if not c:
        return "", ""
    return ("".join(f"VC_{k} == {cfg_value(v)}\n" for k, v in c.items()),
            "CONSTANTS\n" + "".join(f"  {k} <- VC_{k}\n" for k in c))


class Tlc:
    def __init__(self, work):
        self.work = work
        self.n = 0

    def run(self, module, extends, body, cfg, args=(), timeout=800, heap="6g", sink=None, env=None):
        """Runs TLC on a generated module extending `extends`; returns (output lines without JSON edges, edge lines)."""
        self.n += 1
        d = os.path.join(self.work, f"tlc{self.n}")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        with open(f"{d}/{module}.tla", "w") as f:
            f.write(f"---- MODULE {module} ----\nEXTENDS {extends}\n{body}\n====\n")
        with open(f"{d}/{module}.cfg", "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp",
               "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
               "-metadir", d + "/meta", "-noGenerateSpecTE", "-config", f"{module}.cfg"] + list(args) + [f"{module}.tla"]
        out, edges = [], []
        p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                             env=dict(os.environ, **(env or {})), errors="replace")
        t0 = time.time()
        timed = False
        import threading

        def killer():
            nonlocal timed
            timed = True
            p.kill()
        tm = threading.Timer(timeout, killer)
        tm.start()
        for line in p.stdout:
            if line.startswith('"{'):
                if sink is not None:
                    sink(line)
                else:
                    edges.append(line)
            else:
                out.append(line.rstrip("\n"))
        p.wait()
        tm.cancel()
        shutil.rmtree(d + "/meta", ignore_errors=True)
        return p.returncode, out, edges, timed, time.time() - t0


def unprint(line):
    """A TLC-printed JSON string -> object."""
    return json.loads(json.loads(line.rstrip("\n")))


# ------------------------------------------------------------------ scripts

def tok(v):
    if isinstance(v, tuple):
        v = list(v)
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return quote(v, safe="/.:#?_-+*!()[]{}<>$&;@")
    if isinstance(v, list):
        if v and isinstance(v[0], list):
            return "".join("|" + tok(x) for x in v)
        if v and isinstance(v[0], str):
            return quote("".join("\x01" + x for x in v), safe="/.:#?_-")
        return ",".join(tok(x) for x in v)
    raise CheckError("cannot encode %r" % (v,))


def op_line(a):
    return a["op"] + "".join(f" {k}={tok(v)}" for k, v in a.items() if k != "op")


class Driver:
    def __init__(self, exe, model, work, limit=30):
        self.exe, self.model, self.work, self.limit = exe, model, work, limit
        self.n = 0

    def run_many(self, histories, begin=None):
        """histories: list of lists of ops. Returns list of (outputs, endstatus); endstatus None | text of the failure."""
        k = max(1, min(WORKERS, len(histories) // 20 + 1))
        chunks = [[] for _ in range(k)]
        for n, h in enumerate(histories):
            chunks[n % k].append(n)
        res = [None] * len(histories)
        with concurrent.futures.ThreadPoolExecutor(k) as ex:
            futs = [ex.submit(self._run_chunk, c, histories, begin, res) for c in chunks]
            for f in futs:
                f.result()
        return res

    def _run_chunk(self, idx, histories, begin, res):
        pending = list(idx)
        failures = 0
        while pending:
            self.n += 1
            tag = f"{id(idx)}_{self.n}"
            d = os.path.join(self.work, "drv" + tag)
            os.makedirs(d + "/scratch")
            with open(d + "/script", "w") as f:
                for n in pending:
                    f.write("@begin" + "".join(f" {k}={tok(v)}" for k, v in (begin or {}).items()) + "\n")
                    for a in histories[n]:
                        f.write(op_line(a) + "\n")
                    f.write("@end\n")
            with open(d + "/out", "wb") as fo, open(d + "/err", "wb") as fe:
                env = dict(os.environ, ASAN_OPTIONS="malloc_context_size=1:new_delete_type_mismatch=0:detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:max_allocation_size_mb=2000",
                           LC_ALL="C", HOME=d + "/scratch")
                p = subprocess.run([self.exe, self.model, d + "/script", d + "/scratch", str(self.limit)],
                                   stdout=fo, stderr=fe, env=env, cwd=d + "/scratch", timeout=800)
            done = 0
            with open(d + "/out", "rb") as fi:
                data = fi.read().decode("ascii", "replace").split("\n")
            pos = 0
            data = [x for x in data if x]
            for n in pending:
                need = len(histories[n]) + 2
                got = data[pos:pos + need]
                pos += len(got)
                if len(got) == need:
                    res[n] = ([json.loads(x) for x in got], None)
                    done += 1
                else:
                    err = open(d + "/err", errors="replace").read()
                    ok = []
                    for x in got:
                        try:
                            ok.append(json.loads(x))
                        except ValueError:
                            break
                    res[n] = (ok, self._why(p.returncode, err))
                    done += 1
                    failures += 1
                    break
            shutil.rmtree(d, ignore_errors=True)
            pending = pending[done:]
            if failures >= 5:
                for n in pending:
                    res[n] = (None, "skipped")
                return

    @staticmethod
    def _why(rc, err):
        m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", err)
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*)", err)[:6]
        if m:
            return "AddressSanitizer: " + re.sub(r"0x[0-9a-f]+", "0x..", m.group(1))[:160] + " at " + " < ".join(
                re.sub(r"/\S*/", "", x) for x in fr)
        m = re.search(r"VT-SCRIPT-ERROR: ([^\n]*)", err)
        if m:
            return "script error: " + m.group(1)
        if "VT-HANG" in err:
            return "the operation did not terminate"
        return f"the process died (status {rc}) " + err[-300:]


# ------------------------------------------------------------------ graph walks

class Graph:
    def __init__(self):
        self.nodes = {}
        self.keys = []
        self.out = []        # node -> list of edge ids
        self.edges = []      # (src, act, res, dst)
        self.obs = {}        # node -> obs
        self.init = []
        self.seen = set()
        self.byact = []      # node -> {act canon: [edge]}
        self.actcount = collections.Counter()

    def node(self, s):
        k = canon(s)
        n = self.nodes.get(k)
        if n is None:
            n = len(self.keys)
            self.nodes[k] = n
            self.keys.append(k)
            self.out.append([])
            self.byact.append({})
        return n

    def add_init(self, s, o):
        n = self.node(s)
        if n not in self.init:
            self.init.append(n)
        self.obs[n] = o

    def add(self, s, a, r, t, o):
        i, j = self.node(s), self.node(t)
        ka = canon(a)
        ek = (i, ka, canon(r), j)
        if ek in self.seen:
            return
        self.seen.add(ek)
        e = len(self.edges)
        self.edges.append((i, a, r, j))
        self.out[i].append(e)
        self.byact[i].setdefault(ka, []).append(e)
        if j not in self.obs:
            self.obs[j] = o
        self.actcount[a["op"]] += 1

    def tree(self, rng=None):
        """BFS tree; parent edge per node."""
        par = {n: None for n in self.init}
        q = collections.deque(self.init)
        while q:
            n = q.popleft()
            es = self.out[n]
            if rng:
                es = list(es)
                rng.shuffle(es)
            for e in es:
                j = self.edges[e][3]
                if j not in par:
                    par[j] = e
                    q.append(j)
        return par

    def path(self, par, n):
        p = []
        while par[n] is not None:
            e = par[n]
            p.append(e)
            n = self.edges[e][0]
        p.reverse()
        return p

    def cover(self, rng, maxlen=60):
        """Walks from the initial states that together traverse every edge."""
        par = self.tree(rng)
        todo = {}
        for n in range(len(self.keys)):
            es = list(self.out[n])
            rng.shuffle(es)
            if es:
                todo[n] = es
        order = [n for n in par]
        covered = set()
        walks = []

        def nxt(n):
            es = todo.get(n)
            while es:
                if es[-1] in covered:
                    es.pop()
                else:
                    return es[-1]
            return None
        # deepest first: their tree paths cover edges of the shallower nodes
        for n in reversed(order):
            while nxt(n) is not None:
                w = self.path(par, n)
                for e in w:
                    covered.add(e)
                cur = n
                while len(w) < maxlen:
                    e = nxt(cur)
                    if e is None:
                        # one step of look-ahead towards an uncovered edge
                        for e2 in self.out[cur]:
                            if nxt(self.edges[e2][3]) is not None:
                                e = e2
                                break
                        if e is None:
                            break
                    covered.add(e)
                    w.append(e)
                    cur = self.edges[e][3]
                walks.append(w)
                if len(w) >= maxlen and len(self.path(par, n)) >= maxlen:
                    raise CheckError("state deeper than the walk bound")
        return walks
