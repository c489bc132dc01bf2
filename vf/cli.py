"""Runs the command-line programs under the sanitizers and reference computations in plain Python."""
import hashlib, json, math, os, random, re, resource, shutil, signal, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from . import build
from .core import SAN_ENV, crash_key


class Out:
    def __init__(self, rc, out, err, files, san, d):
        self.rc, self.out, self.err, self.files, self.san, self.dir = rc, out, err, files, san, d
        self.bad = False


def _limits(cpu, stack):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
    return f


def run(c, prog, exe, args, files=None, stdin=None, cpu=40, want=(), expect_ok=True, env=None, tag=""):
    """one execution in a directory of its own; crashes, sanitizer reports and hangs become violations of c.
    expect_ok: True -> exit status 0 required; False -> any status a program chooses; None -> nonzero required"""
    if not c.stop and c.spent():
        c.count("monitor.cases_left_for_lack_of_time")
    if c.stop or c.enough() or c.spent():       # established already, or no time left
        o = Out(None, "", "", {}, "", "")
        o.bad = True
        return o
    d = tempfile.mkdtemp(dir=c.scratch)
    for f, t in (files or {}).items():
        with open(os.path.join(d, f), "wb") as h:
            h.write(t if isinstance(t, bytes) else t.encode())
    e = dict(os.environ, **SAN_ENV, **(env or {}))
    e["ASAN_OPTIONS"] += ":log_path=" + os.path.join(d, ".san")
    e["TMPDIR"] = d
    rc = None
    for mult in (1, max(1, min(3, 300 / cpu))):
        try:
            p = subprocess.run([exe] + list(args), cwd=d, input=(stdin or "").encode() if stdin is not None else b"",
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=min(cpu * mult * 8 + 30, 780),
                               preexec_fn=_limits(int(cpu * mult), 0))
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as x:
            rc, out, err = "wall", x.stdout or b"", x.stderr or b""
        if rc not in (-signal.SIGXCPU, -signal.SIGKILL, "wall"):
            break
    san = ""
    res = {}
    for f in os.listdir(d):
        p = os.path.join(d, f)
        if f.startswith(".san"):
            t = open(p, errors="replace").read(200000)
            k = max(t.find("AddressSanitizer"), t.find("runtime error:"))
            san += t[max(0, k - 200):][:20000]
        elif f in want or (want == "all" and f not in (files or {})):
            with open(p, "rb") as h:
                res[f] = h.read(20 << 20).decode("latin-1")
    err = err.decode("latin-1")
    if "runtime error:" in err or "AddressSanitizer" in err:
        k = max(err.find("AddressSanitizer"), err.find("runtime error:"))
        san += err[max(0, k - 200):][:20000]
    o = Out(rc, out.decode("latin-1"), err, res, san, d)
    c.evaluations += 1
    c.count("monitor.program_runs")
    c.count("monitor.runs_of_" + prog)
    c.count("oracle.checks")
    key = None
    if rc in (-signal.SIGXCPU, -signal.SIGKILL):
        key, msg = "hang:" + prog, "%s does not finish within %d s of CPU time" % (prog, cpu * mult)
        c.stop = c.stop or not c.is_known(key)
    elif rc == "wall":
        c.inconclusive += 1
        o.bad = True
    elif san or (isinstance(rc, int) and (rc < 0 or rc == 99)):
        key, msg = crash_key(rc, san, prog)
    elif expect_ok is True and rc != 0:
        key, msg = "status:" + prog, "exit status %s: %s" % (rc, (o.out[-200:] + " / " + o.err[-300:]).replace("\n", " "))
    elif expect_ok is None and rc == 0:
        key, msg = "accepted:" + prog + (":" + tag if tag else ""), "unusable input accepted (%s): %s" % (tag, o.out[:200].replace("\n", " "))
    if key:
        o.bad = True
        fail(c, key, msg + " [" + prog + " " + " ".join(args) + "]", exe, args, files, stdin)
    shutil.rmtree(d, ignore_errors=True)
    return o


def fail(c, key, msg, exe="", args=(), files=None, stdin=None):
    """records a violation together with everything needed to run it again"""
    h = hashlib.sha1((c.prop + key).encode()).hexdigest()[:10]
    d = os.path.join(build.BUILD, "replays", "%s-%s.in" % (c.prop, h))
    if key not in c.viol:
        os.makedirs(d, exist_ok=True)
        for f, t in (files or {}).items():
            with open(os.path.join(d, f), "wb") as fh:
                fh.write(t if isinstance(t, bytes) else t.encode())
        if stdin is not None:
            with open(os.path.join(d, ".stdin"), "w") as fh:
                fh.write(stdin)
    q = lambda s: "'" + s.replace("'", "'\\''") + "'"
    c.violation(key, msg, {"cmd": "cd %s && ASAN_OPTIONS=detect_leaks=0 %s %s %s" % (q(d), q(exe), " ".join(q(a) for a in args),
                                                         "< .stdin" if stdin is not None else "< /dev/null")})


def check(c, cond, key, msg, exe="", args=(), files=None, stdin=None):
    c.count("oracle.checks")
    if not cond:
        fail(c, key, msg() if callable(msg) else msg, exe, args, files, stdin)
    return bool(cond)


def pmap(f, n, jobs=None):
    with ThreadPoolExecutor(jobs or build.JOBS) as ex:
        for r in [ex.submit(f, k) for k in range(n)]:
            r.result()


# ---------------------------------------------------------------- networks
class Net:
    """undirected simple network: labels and weighted edges in file order"""
    def __init__(self, n, lab=None):
        self.n, self.lab = n, lab or ["n%d" % i for i in range(n)]
        self.e = {}                # (i, j) with i < j -> weight
        self.order = []            # order and direction in which the links are written

    def add(self, i, j, w=1.0):
        if i != j and (min(i, j), max(i, j)) not in self.e:
            self.e[(min(i, j), max(i, j))] = w
            self.order.append((i, j))

    def adj(self):
        a = [dict() for _ in range(self.n)]
        for (i, j), w in self.e.items():
            a[i][j] = a[j][i] = w
        return a

    def w(self, i, j):
        return self.e[(min(i, j), max(i, j))]


def fw(w):
    return ("%d" % w) if w == int(w) else repr(w)


def labels(r, n):
    st = r.randrange(6)
    if st == 0:
        return ["%d" % i for i in range(n)]
    if st == 1:
        return ["n%d" % i for i in range(n)]
    if st == 2:
        p = r.sample(range(max(1000, 2 * n)), n)
        return ["%d" % i for i in p]
    if st == 3:
        return ["x" * r.randrange(0, 60) + "_%d" % i for i in range(n)]
    if st == 4:
        return ["%s%d" % (r.choice("a.:-/%[]{}()##!\"'*\\,;=|&+"), i) for i in range(n)]
    return ["N" * (1 + i % 3) + chr(97 + i % 26) + "%d" % (i // 3) for i in range(n)]


def random_net(r, nmin, nmax, wmode=0, isolated=False):
    """nodes without links cannot be written in a link file, so they are dropped unless isolated"""
    while True:
        n = r.randint(nmin, nmax)
        kind = r.randrange(11)
        if n > 150 and kind in (2, 4):      # too many links
            kind = 5
        g = Net(n)
        if kind == 0:
            for i in range(1, n):
                g.add(0, i)
        elif kind == 1:
            for i in range(n - 1):
                g.add(i, i + 1)
        elif kind == 2:
            for i in range(n):
                for j in range(i):
                    g.add(i, j)
        elif kind == 3:
            for i in range(n):
                g.add(i, (i + 1) % n)
        elif kind == 4:
            k = r.randint(2, 4)
            for i in range(n):
                for j in range(i):
                    if r.random() < (.8 if i % k == j % k else .07):
                        g.add(i, j)
        elif kind == 5:
            s = r.randint(2, 5)
            for i in range(n):
                for j in range(i):
                    if i // s == j // s:
                        g.add(i, j)
            if r.random() < .5:
                for i in range(s, n, s):
                    g.add(i, i - 1)
        elif kind == 6:
            for i in range(1, n):
                g.add(i, r.randrange(i))
        elif kind == 7:
            for i in range(0, n - 1, 2):
                g.add(i, i + 1)
        else:
            p = r.choice([.1, .25, .5, .8]) if n <= 150 else r.choice([.01, .04])
            for i in range(n):
                for j in range(i):
                    if r.random() < p:
                        g.add(i, j)
        used = sorted({x for e in g.e for x in e}) if not isolated else list(range(n))
        if len(used) < nmin and not (isolated and n):
            continue
        ren = {x: k for k, x in enumerate(used)}
        h = Net(len(used), labels(r, len(used)))
        es = [(ren[i], ren[j]) if r.random() < .5 else (ren[j], ren[i]) for (i, j) in g.e]
        r.shuffle(es)
        for i, j in es:
            h.add(i, j, 1.0 if wmode == 0 else float(r.randint(1, 6)) if wmode == 1 else r.randint(1, 64) / 16.0)
        return h


def link_file(r, g, weights=False, both=False, junk=True):
    """text of the network as a list of links"""
    s = ""
    for i, j in g.order:
        sep = r.choice([" ", " ", "\t", "  "]) if junk else " "
        f = [g.lab[i], g.lab[j]] + ([fw(g.w(i, j))] if weights else [])
        s += sep.join(f) + "\n"
        if both:
            f = [g.lab[j], g.lab[i]] + ([fw(g.w(i, j))] if weights else [])
            s += sep.join(f) + "\n"
    return s


def components(g):
    a = g.adj()
    comp = [-1] * g.n
    k = 0
    for s in range(g.n):
        if comp[s] >= 0:
            continue
        st = [s]
        comp[s] = k
        while st:
            x = st.pop()
            for y in a[x]:
                if comp[y] < 0:
                    comp[y] = k
                    st.append(y)
        k += 1
    return comp, k


def bfs(a, s):
    d = {s: 0}
    q = [s]
    for x in q:
        for y in a[x]:
            if y not in d:
                d[y] = d[x] + 1
                q.append(y)
    return d


def near(x, y, tol=1e-9):
    if math.isnan(x) or math.isnan(y):
        return math.isnan(x) and math.isnan(y)
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) <= tol * (1 + max(abs(x), abs(y)))


def fnum(s):
    try:
        return float(s)
    except ValueError:
        return float("nan")
