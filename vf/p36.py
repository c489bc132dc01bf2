"""The reliability, multi-layer, degeneracy, conflict and recommendation programs: which pairs they list, and scores against
posterior averages computed by enumerating every partition."""
import functools, math, os, random, threading
from . import build, cli
from .props import prop

ONE = {"reliability_links": ("plain", "split"), "reliability_links_gibbs": ("plain", "stdout"), "reliability_links_gibbs_sparse": ("sparse", "stdout"),
       "reliability_links_mb": ("and", ".AND_scores"), "reliability_links_mb_gibbs": ("and", ".AND_scores"),
       "reliability_links_mb_OR": ("or", ".OR_scores"), "reliability_links_mb_gibbs_OR": ("or", ".OR_scores"),
       "only_degeneration_mb": ("deg", ".scores"), "only_degeneration_mb_gibbs": ("deg", ".scores")}
RATE = {"multi_recommend_2": "two", "multi_recommend_k": "k", "multi_recommend_k_gibbs": "k", "conflict": "all"}
OTHER = ["reliability_links_k", "reliability_reconstruct"]


@functools.lru_cache(None)
def partitions(n):
    out = []

    def rec(c, mx):
        if len(c) == n:
            out.append(tuple(c))
            return
        for v in range(mx + 1):
            rec(c + [v], max(mx, v + 1))
    rec([], 0)
    return out


@functools.lru_cache(None)
def log_degeneracy(n):
    bell, row = [1], [1]
    for _ in range(n):
        nr = [row[-1]]
        for x in row:
            nr.append(nr[-1] + x)
        row = nr
        bell.append(row[0])
    s = [1]
    for m in range(n):
        u = [0] * (m + 2)
        for k in range(m + 1):
            u[k] -= s[k] * m
            u[k + 1] += s[k]
        s = u
    return 0.0 if n == 0 else math.log(sum(s[k] * bell[k] ** 2 for k in range(n + 1)))


def harm(n):
    return sum(1.0 / k for k in range(1, n + 1))


def lch(r, l):
    return math.lgamma(r + 1) - math.lgamma(l + 1) - math.lgamma(r - l + 1)


def lbeta(a, b):
    return math.lgamma(a) + math.lgamma(b) - math.lgamma(a + b)


def pair_cost(m, r, l, ab):
    if m in ("plain", "deg"):
        return math.log(r + 1) + lch(r, l)
    if m == "and":
        return math.log(r + 1) + lch(r, l) - math.log(harm(r + 1) - harm(l))
    if m == "or":
        return math.log(r + 1) + lch(r, l) - math.log(harm(r + 1) - harm(r - l))
    return lbeta(*ab) - lbeta(l + ab[0], r - l + ab[1])


def pair_score(m, r, l, ab):
    if m in ("plain", "deg"):
        return (l + 1) / (r + 2)
    if m == "and":
        return (l + 1) / (r + 2) * (harm(r + 2) - harm(l + 1)) / (harm(r + 1) - harm(l))
    if m == "or":
        return 1 - (r - l + 1) / (r + 2) * (harm(r + 2) - harm(r - l + 1)) / (harm(r + 1) - harm(r - l))
    return (l + ab[0]) / (r + ab[0] + ab[1])


def normalise(h):
    mn = min(h)
    w = [math.exp(mn - x) for x in h]
    z = sum(w)
    return [x / z for x in w]


def exact_one(g, m):
    """posterior mean of every pair's score"""
    ab = None
    if m == "sparse":
        d = 2 * len(g.e) / (g.n * (g.n - 1.0))
        if d >= 1:
            return None
        ab = (d * .5 / (1 - d), .5)
    H, S = [], []
    for c in partitions(g.n):
        size = {}
        for x in c:
            size[x] = size.get(x, 0) + 1
        L = {}
        for i, j in g.e:
            k = (min(c[i], c[j]), max(c[i], c[j]))
            L[k] = L.get(k, 0) + 1
        h, sc = 0.0, {}
        for x in size:
            for y in size:
                if x <= y:
                    r = size[x] * (size[x] - 1) // 2 if x == y else size[x] * size[y]
                    l = L.get((x, y), 0)
                    h += pair_cost(m, r, l, ab)
                    sc[(x, y)] = pair_score(m, r, l, ab)
        if m in ("and", "or", "deg"):
            h -= log_degeneracy(len(size))
        H.append(h)
        S.append(sc)
    w = normalise(H)
    q = {}
    for i in range(g.n):
        for j in range(i):
            q[(j, i)] = sum(x * s[(min(c[i], c[j]), max(c[i], c[j]))] for x, s, c in zip(w, S, partitions(g.n)))
    return q


def kcost(c):
    n, K = sum(c), len(c)
    return math.lgamma(n + K) - math.lgamma(K) - sum(math.lgamma(x + 1) for x in c)


def exact_k(g, val, K):
    """K-valued links within one set: {pair: probabilities}"""
    H, S = [], []
    for c in partitions(g.n):
        cnt = {}
        for x in set(c):
            for y in set(c):
                if x <= y:
                    cnt[(x, y)] = [0] * K
        for (i, j), v in val.items():
            cnt[(min(c[i], c[j]), max(c[i], c[j]))][v] += 1
        H.append(sum(kcost(x) for x in cnt.values()))
        S.append(cnt)
    w = normalise(H)
    q = {}
    for i in range(g.n):
        for j in range(i):
            p = [0.0] * K
            for x, cnt, c in zip(w, S, partitions(g.n)):
                n = cnt[(min(c[i], c[j]), max(c[i], c[j]))]
                for k in range(K):
                    p[k] += x * (n[k] + 1) / (sum(n) + K)
            q[(j, i)] = p
    return q


def exact_ratings(n1, n2, obs, K, pairs):
    H, S, P = [], [], []
    for c in partitions(n1):
        for d in partitions(n2):
            cnt = {}
            for x in set(c):
                for y in set(d):
                    cnt[(x, y)] = [0] * K
            for (i, t), v in obs.items():
                cnt[(c[i], d[t])][v] += 1
            H.append(sum(kcost(x) for x in cnt.values()))
            S.append(cnt)
            P.append((c, d))
    w = normalise(H)
    q = {}
    for i, t in pairs:
        p = [0.0] * K
        for x, cnt, (c, d) in zip(w, S, P):
            n = cnt[(c[i], d[t])]
            for k in range(K):
                p[k] += x * (n[k] + 1) / (sum(n) + K)
        q[(i, t)] = p
    return q


def small_net(r, nmin, nmax):
    g = cli.random_net(r, nmin, nmax)
    lines = ["%s %s" % ((g.lab[i], g.lab[j]) if r.random() < .5 else (g.lab[j], g.lab[i])) for i, j in g.order]
    if r.random() < .15 and g.n < nmax:                  # a node without links
        g.n += 1
        g.lab.append("alone")
        lines.append("alone alone")
    return g, "\n".join(lines) + "\n"


def stub_score(a, b, k):
    h = 2166136261
    for x in a.encode() + b"\x01" + b.encode():
        h = (h ^ x) * 16777619 & 0xffffffff
    h = (h ^ (k + 2)) * 16777619 & 0xffffffff
    return (h % 9973 + 1) / 10000.


class R36:
    def __init__(self, c, flavour):
        self.c = c
        self.dev = []
        self.exe = build.cli(list(ONE) + list(RATE) + OTHER, flavour)

    def ck(self, cond, key, msg, info):
        return cli.check(self.c, cond, key, msg, *info)

    def compare(self, prog, rerun, got, want, info):
        """got, want: {pair: tuple}. Deviations beyond the sampling error of one run must repeat with other seeds."""
        dev = max((abs(x - y) for p in want for x, y in zip(got[p], want[p])), default=0)
        self.dev.append((dev, prog))
        self.c.count("oracle.averages", sum(len(v) for v in want.values()))
        if dev <= .01:
            return
        self.c.count("monitor.repeated_runs", 5)
        runs = [got]
        for t in range(5):
            o = rerun(t)
            if o is None:
                return
            runs.append(o)
        for p in want:
            for k, y in enumerate(want[p]):
                v = [x[p][k] for x in runs]
                mu = sum(v) / len(v)
                se = math.sqrt(sum((x - mu) ** 2 for x in v) / (len(v) - 1) / len(v))
                if abs(mu - y) > .007 + 6 * se:
                    self.ck(False, "score:" + prog, lambda: "score of %s over %d runs is %.4f +- %.4f, exact %.4f" % (p, len(v), mu, se, y), info)
                    return

    def one_mode(self, r, prog, big):
        m, where = ONE[prog]
        g, text = small_net(r, 2, r.choice([16, 22, 48]) if big else 6)
        files = {"net.dat": text}
        self.c.input(prog + " " + text.replace("\n", ";"), g.n > 2)

        def rows(seed):
            info = (self.exe[prog], ["net.dat", str(seed)], files, None)
            out = {"split": ("missing.dat", "spurious.dat"), "stdout": ()}.get(where, ("net.dat" + where,))
            o = cli.run(self.c, prog, *info[:3], want=out, cpu=120)
            if o.bad:
                return None, info
            return [[ln.split(" ") for ln in t.split("\n") if ln] for t in ([o.out] if where == "stdout" else [o.files.get(x, "absent") for x in out])], info
        seed = r.randrange(1, 10 ** 6)

        def get(seed):
            t, info = rows(seed)
            if t is None:
                return None, info
            idx = {x: i for i, x in enumerate(g.lab)}
            d = {}
            for k, f in enumerate(t):
                for x in f:
                    if not self.ck(len(x) == 3 and x[1] in idx and x[2] in idx and x[1] != x[2], "line:" + prog, lambda: "line %r" % " ".join(x), info):
                        return None, info
                    i, j = sorted((idx[x[1]], idx[x[2]]))
                    if not self.ck((i, j) not in d, "twice:" + prog, lambda: "pair %s-%s listed twice" % (x[1], x[2]), info):
                        return None, info
                    s = cli.fnum(x[0])
                    self.ck(0 <= s <= 1 if m == "sparse" else 0 < s < 1, "range:" + prog, lambda: "score %s of %s-%s" % (x[0], x[1], x[2]), info)
                    if where == "split":
                        self.ck((k == 1) == ((i, j) in g.e), "file:" + prog, lambda: "pair %s-%s listed in the wrong file" % (x[1], x[2]), info)
                    d[(i, j)] = (s,)
            if not self.ck(len(d) == g.n * (g.n - 1) // 2, "pairs:" + prog, lambda: "%d of %d pairs listed" % (len(d), g.n * (g.n - 1) // 2), info):
                return None, info
            return d, info
        got, info = get(seed)
        if got is None or g.n > 6:
            return
        q = exact_one(g, m)
        if q is not None:
            self.compare(prog, lambda t: get(seed + 1 + t)[0], got, {p: (x,) for p, x in q.items()}, info)

    def k_links(self, r, big):
        prog = "reliability_links_k"
        g, _ = small_net(r, 2, r.choice([16, 36]) if big else 6)
        K = r.randint(1, 4)
        val = {e: r.randrange(K) if r.random() < .6 else (e[0] + e[1]) % K for e in g.e}
        text = "".join("%s %s %d\n" % ((g.lab[i], g.lab[j], val[(i, j)]) if r.random() < .5 else (g.lab[j], g.lab[i], val[(i, j)])) for i, j in g.e)
        g.n = len({x for e in g.e for x in e})
        files = {"net.dat": text}
        self.c.input(prog + " %d " % K + text.replace("\n", ";"), g.n > 2)
        idx = {x: i for i, x in enumerate(g.lab[:g.n])}
        seed = r.randrange(1, 10 ** 6)

        def get(seed):
            info = (self.exe[prog], [str(K), "net.dat", str(seed)], files, None)
            o = cli.run(self.c, prog, *info[:3], want=("unobserved_k.dat", "observed_k.dat"), cpu=120)
            if o.bad:
                return None, info
            d = {}
            for k, f in enumerate(("unobserved_k.dat", "observed_k.dat")):
                for ln in o.files.get(f, "absent").split("\n"):
                    if not ln:
                        continue
                    x = ln.split(" ")
                    if not self.ck(len(x) == 2 + K and x[0] in idx and x[1] in idx and x[0] != x[1], "line:" + prog, lambda: "line %r" % ln, info):
                        return None, info
                    i, j = sorted((idx[x[0]], idx[x[1]]))
                    if not self.ck((i, j) not in d, "twice:" + prog, lambda: "pair %s-%s listed twice" % (x[0], x[1]), info):
                        return None, info
                    self.ck((k == 1) == ((i, j) in val), "file:" + prog, lambda: "pair %s-%s listed in the wrong file" % (x[0], x[1]), info)
                    d[(i, j)] = v = tuple(cli.fnum(y) for y in x[2:])
                    self.ck(all(0 <= y <= 1 for y in v) and abs(sum(v) - 1) < 2e-6 * K, "range:" + prog, lambda: "probabilities %s" % (v,), info)
            if not self.ck(len(d) == g.n * (g.n - 1) // 2, "pairs:" + prog, lambda: "%d of %d pairs listed" % (len(d), g.n * (g.n - 1) // 2), info):
                return None, info
            return d, info
        got, info = get(seed)
        if got is not None and g.n <= 6:
            self.compare(prog, lambda t: get(seed + 1 + t)[0], got, exact_k(g, val, K), info)

    def large(self, r, prog):
        """hundreds of nodes; the sampler is replaced by scores that follow from the labels"""
        exe = self.stubs()[prog]
        if not exe:
            self.c.count("monitor.stub_unavailable")
            return
        K = r.randint(1, 4)
        if prog in ONE or prog == "reliability_links_k":
            n = r.randint(310, 420)
            lab = cli.labels(r, n)
            e = {}
            for i in range(1, n):
                e[(r.randrange(i), i)] = r.randrange(K)
            hub = r.randrange(n)
            for j in range(n):
                if j != hub and r.random() < .9:
                    e.setdefault((min(j, hub), max(j, hub)), r.randrange(K))
            es = list(e)
            r.shuffle(es)
            kl = prog == "reliability_links_k"
            text = ""
            for i, j in es:
                a, b = (lab[i], lab[j]) if r.random() < .5 else (lab[j], lab[i])
                text += "%s %s%s\n" % (a, b, " %d" % e[(i, j)] if kl else "")
            files = {"net.dat": text}
            self.c.input("large " + prog + text.replace("\n", ";"), True)
            outs = ("unobserved_k.dat", "observed_k.dat") if kl else {"split": ("missing.dat", "spurious.dat"), "stdout": ()}.get(ONE[prog][1], ("net.dat" + ONE[prog][1],))
            info = (exe, (["%d" % K] if kl else []) + ["net.dat", "7"], files, None)
            o = cli.run(self.c, prog, *info[:3], want=outs, cpu=120)
            if o.bad:
                return
            idx = {x: i for i, x in enumerate(lab)}
            seen = set()
            for k, t in enumerate([o.out] if not outs else [o.files.get(x, "absent") for x in outs]):
                for ln in t.split("\n"):
                    if not ln:
                        continue
                    f = ln.split(" ")
                    a, b = (f[0], f[1]) if kl else (f[-2], f[-1])
                    v = f[2:] if kl else f[:1]
                    if not self.ck(a in idx and b in idx and a != b and len(f) == 2 + (K if kl else 1), "line:" + prog, lambda: "line %r" % ln, info):
                        return
                    p = tuple(sorted((idx[a], idx[b])))
                    if not self.ck(p not in seen, "twice:" + prog, lambda: "pair %s-%s listed twice" % (a, b), info):
                        return
                    seen.add(p)
                    if not self.ck(all(abs(cli.fnum(x) - stub_score(*sorted((a, b)), z)) < 2e-6 for z, x in enumerate(v)), "own:" + prog, lambda: "pair %s-%s is printed with %s, its score is %s" % (a, b, v, [stub_score(*sorted((a, b)), z) for z in range(len(v))]), info):
                        return
                    if len(outs) == 2 and not self.ck((k == 1) == (p in e), "file:" + prog, lambda: "pair %s-%s listed in the wrong file" % (a, b), info):
                        return
            self.ck(len(seen) == n * (n - 1) // 2, "pairs:" + prog, lambda: "%d of %d pairs listed" % (len(seen), n * (n - 1) // 2), info)
        else:
            mode = RATE[prog]
            n1, n2 = r.choice([(r.randint(310, 400), r.randint(2, 8)), (r.randint(2, 8), r.randint(310, 400))])
            l1, l2 = cli.labels(r, n1), ["m" + x for x in cli.labels(r, n2)]
            if mode == "all" and r.random() < .5:
                l2 = (l1 + l2)[:n2]
            obs = {(i, i % n2) for i in range(n1)} | {(t % n1, t) for t in range(n2)} | {(r.randrange(n1), r.randrange(n2)) for _ in range(400)}
            obs = sorted(obs)
            r.shuffle(obs)
            files = {"obs.dat": "".join("%s %s %d\n" % (l1[i], l2[t], r.randrange(2 if mode != "k" else K)) for i, t in obs)}
            args = ["obs.dat"]
            qs = []
            if mode != "all":
                qs = [(r.choice(l1) if r.random() < .9 else "new%d" % r.randrange(50), r.choice(l2) if r.random() < .9 else "neu%d" % r.randrange(50)) for _ in range(r.randint(310, 700))]
                files["que.dat"] = "".join("%s %s\n" % q for q in qs)
                args.append("que.dat")
            if mode == "k":
                args = ["%d" % K] + args
            self.c.input("large " + prog + repr(files) + repr(args), True)
            info = (exe, args + ["7"], files, None)
            o = cli.run(self.c, prog, *info[:3], want=("link_scores.dat",), cpu=120)
            if o.bad:
                return
            if mode == "all":
                got = {}
                for ln in o.files.get("link_scores.dat", "absent").split("\n"):
                    if ln:
                        x = ln.split(" ")
                        if not self.ck(len(x) == 3 and (x[0], x[1]) not in got, "line:" + prog, lambda: "line %r" % ln, info):
                            return
                        got[(x[0], x[1])] = cli.fnum(x[2])
                want = {(a, b) for a in l1 for b in l2 if a != b}
                if self.ck(set(got) == want, "pairs:" + prog, lambda: "%d of %d pairs listed" % (len(got), len(want)), info):
                    self.ck(all(abs(v - stub_score(a, b, 0)) < 2e-6 for (a, b), v in got.items()), "own:" + prog, "a pair is printed with another pair's score", info)
            else:
                w = o.out.split(">>> RESULTS")[-1].split()
                per = 3 if mode == "two" else 2 + K
                if self.ck(len(w) == per * len(qs), "pairs:" + prog, lambda: "%d fields for %d queries" % (len(w), len(qs)), info):
                    bad = [i for i, q in enumerate(qs) if tuple(w[i * per:i * per + 2]) != q or any(abs(cli.fnum(x) - stub_score(*q, z)) > 2e-6 for z, x in enumerate(w[i * per + 2:(i + 1) * per]))]
                    self.ck(not bad, "order:" + prog, lambda: "query %d is %s, printed %s" % (bad[0], qs[bad[0]], w[bad[0] * per:(bad[0] + 1) * per]), info)
        self.c.count("monitor.large_listings")

    def stubs(self):
        with R36.lock:
            if R36.exes is None:
                R36.exes = build.stubbed()
        return R36.exes
    lock, exes = threading.Lock(), None

    def reconstruct(self, r):
        prog = "reliability_reconstruct"
        g, text = small_net(r, 2, 9)
        files = {"net.dat": text}
        self.c.input(prog + " " + text.replace("\n", ";"), g.n > 2)
        info = (self.exe[prog], ["net.dat", str(r.randrange(1, 10 ** 6))], files, None)
        o = cli.run(self.c, prog, *info[:3], want=("net_reconstructed.dat",), cpu=120)
        if o.bad:
            return
        if self.ck("net_reconstructed.dat" in o.files, "absent:" + prog, "no reconstructed network written", info):
            d = set()
            for ln in o.files["net_reconstructed.dat"].split("\n"):
                if ln:
                    x = ln.split()
                    k = tuple(sorted(x))
                    self.ck(len(x) == 2 and x[0] in g.lab and x[1] in g.lab and x[0] != x[1] and k not in d, "line:" + prog, lambda: "line %r is repeated or no link between nodes of the input" % ln, info)
                    d.add(k)

    def ratings(self, r, prog, big):
        mode = RATE[prog]
        K = r.randint(1, 4) if mode == "k" else 2
        while True:
            n1, n2 = (r.randint(1, r.choice([12, 60])), r.randint(1, r.choice([12, 30]))) if big else (r.randint(1, 4), r.randint(1, 4))
            p = r.choice([.3, .6, 1])
            kind = r.randrange(3)
            obs = {(i, t): (r.randrange(K) if kind == 0 else (i + t) % K if kind == 1 else (i % 2) * (K - 1)) for i in range(n1) for t in range(n2) if r.random() < p}
            if obs:
                break
        same = mode == "all" and r.random() < .5
        l1 = cli.labels(r, n1)
        l2 = l1[:n2] + ["z%d" % i for i in range(n2 - n1)] if same else ["m" + x for x in cli.labels(r, n2)]
        order = list(obs)
        r.shuffle(order)
        # nodes exist in order of appearance
        a1, a2 = list(dict.fromkeys(i for i, _ in order)), list(dict.fromkeys(t for _, t in order))
        sep = r.choice([" ", "\t"])
        files = {"obs.dat": "".join(sep.join([l1[i], l2[t], "%d" % obs[(i, t)]]) + "\n" for i, t in order)}
        N1, N2 = [l1[i] for i in a1], [l2[t] for t in a2]
        val = {(N1.index(l1[i]), N2.index(l2[t])): v for (i, t), v in obs.items()}
        args = ["obs.dat"]
        qs = []
        if mode != "all":
            cap1, cap2 = (99, 99) if big else (4, 4)
            for _ in range(r.choice([0, 1, 2, 3, 5])):
                x = r.choice(N1) if r.random() < .85 or len(N1) >= cap1 else "new%d" % r.randrange(2)
                y = r.choice(N2) if r.random() < .85 or len(N2) >= cap2 else "neu%d" % r.randrange(2)
                if x not in N1:
                    N1.append(x)
                if y not in N2:
                    N2.append(y)
                qs.append((x, y))
            files["que.dat"] = "".join("%s %s\n" % q for q in qs)
            if r.random() < .2:
                files["que.dat"] = files["que.dat"].rstrip("\n")
            args.append("que.dat")
        if mode == "k":
            args = [str(K)] + args
        self.c.input(prog + repr(files) + repr(args), len(obs) > 1)
        seed = r.randrange(1, 10 ** 6)

        def get(seed):
            info = (self.exe[prog], args + [str(seed)], files, None)
            o = cli.run(self.c, prog, *info[:3], want=("link_scores.dat",), cpu=120)
            if o.bad:
                return None, info
            if mode == "all":
                rows = [ln.split(" ") for ln in o.files.get("link_scores.dat", "absent").split("\n") if ln]
                d = {}
                for x in rows:
                    if not self.ck(len(x) == 3 and x[0] in N1 and x[1] in N2 and x[0] != x[1], "line:" + prog, lambda: "line %r" % " ".join(x), info):
                        return None, info
                    k = (N1.index(x[0]), N2.index(x[1]))
                    if not self.ck(k not in d, "twice:" + prog, lambda: "pair %s-%s listed twice" % (x[0], x[1]), info):
                        return None, info
                    d[k] = (cli.fnum(x[2]),)
                want = {(i, t) for i in range(len(N1)) for t in range(len(N2)) if N1[i] != N2[t]}
                if not self.ck(set(d) == want, "pairs:" + prog, lambda: "%d of %d pairs listed" % (len(d), len(want)), info):
                    return None, info
                return d, info
            t = o.out.split(">>> RESULTS")
            if not self.ck(len(t) == 2, "line:" + prog, lambda: "no results in %r" % o.out[:200], info):
                return None, info
            w = t[1].split()
            per = 3 if mode == "two" else 2 + K
            if not self.ck(len(w) == per * len(qs), "pairs:" + prog, lambda: "%d fields for %d queries" % (len(w), len(qs)), info):
                return None, info
            d = {}
            for i, q in enumerate(qs):
                x = w[i * per:(i + 1) * per]
                if not self.ck((x[0], x[1]) == q, "order:" + prog, lambda: "query %d is %s, result is for %s %s" % (i, q, x[0], x[1]), info):
                    return None, info
                v = tuple(cli.fnum(y) for y in x[2:])
                ok = all(0 <= y <= 1 for y in v) and (mode == "two" or abs(sum(v) - 1) < 2e-6 * K)
                self.ck(ok, "range:" + prog, lambda: "probabilities %s of query %d" % (v, i), info)
                k = (N1.index(q[0]), N2.index(q[1]))
                if k in d:
                    self.ck(d[k] == v, "repeated:" + prog, "the same query twice, with different scores", info)
                d[k] = v
            return d, info
        got, info = get(seed)
        if got is None or len(N1) > 4 or len(N2) > 4:
            return
        drop = {(N1.index(x), N2.index(y)) for x, y in qs}
        e = exact_ratings(len(N1), len(N2), {k: v for k, v in val.items() if k not in drop}, K, list(got))
        if mode != "k":
            e = {k: (v[1],) for k, v in e.items()}
        self.compare(prog, lambda t: get(seed + 1 + t)[0], got, e, info)


@prop("P36")
def p36(c):
    c.rule = ("networks of 2-6 nodes (11 shapes, 6 label styles, nodes without links) and rating files of up to 4x4 with queries observed, unobserved, repeated and about new nodes, against posterior averages over all partitions; "
              "one in six up to 48 nodes or 60x30 ratings (listing only); all 15 programs, optimised and sanitized builds; non-trivial: more than 2 nodes or 1 rating")
    N = 3600 if c.tier == "thorough" else 330
    for flavour, n, jobs in (("plain", N, None), ("san", N // 5, 6)):
        u = R36(c, flavour)
        todo = [functools.partial(u.one_mode, prog=p) for p in ONE] + [functools.partial(u.ratings, prog=p) for p in RATE] + [functools.partial(u.k_links)]

        def one(k):
            r = random.Random("P36-%s-%d-%d" % (flavour, c.seed, k))
            if k % 15 == 14:
                u.reconstruct(r)
            else:
                todo[(k % 15) % len(todo)](r, big=(k // 15) % 6 == 5)
        cli.pmap(one, n, jobs)
        if flavour == "san":
            many = [functools.partial(u.large, prog=p) for p in build.STUBS]
            cli.pmap(lambda k: many[k % len(many)](random.Random("P36-large-%d-%d" % (c.seed, k))), len(many) * (20 if c.tier == "thorough" else 3), jobs)
        if os.environ.get("VF_DEV"):
            print(sorted(u.dev)[-25:])
