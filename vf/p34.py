"""The network utilities: every printed value is recomputed from the input file."""
import math, os, random, re, sys
from . import build, cli
from .props import prop
from .p18 import bip_net

PROGS = ["countlinks", "getgiant", "lapspec", "netprop", "nodeprop", "netcompare", "netrandomize", "mutualinfo", "bipartitemodularity", "bipartitemodularity_w", "modularbipart", "netlayout", "multinetlayout"]


def jacobi(a):
    n = len(a)
    a = [list(map(float, x)) for x in a]
    for _ in range(60):
        if sum(a[i][j] ** 2 for i in range(n) for j in range(i)) < 1e-22:
            break
        for p in range(n):
            for q in range(p + 1, n):
                if abs(a[p][q]) < 1e-300:
                    continue
                th = (a[q][q] - a[p][p]) / (2 * a[p][q])
                t = (1 if th >= 0 else -1) / (abs(th) + math.sqrt(th * th + 1))
                c = 1 / math.sqrt(t * t + 1)
                s = t * c
                for k in range(n):
                    x, y = a[k][p], a[k][q]
                    a[k][p], a[k][q] = c * x - s * y, s * x + c * y
                for k in range(n):
                    x, y = a[p][k], a[q][k]
                    a[p][k], a[q][k] = c * x - s * y, s * x + c * y
    return sorted(a[i][i] for i in range(n))


def spectrum(g):
    a = g.adj()
    return jacobi([[len(a[i]) if i == j else (-1 if j in a[i] else 0) for j in range(g.n)] for i in range(g.n)])


def betweenness(g):
    """sum over ordered pairs of the fraction of shortest paths through each node"""
    a, n = g.adj(), g.n
    b = [0.0] * n
    for s in range(n):
        d = cli.bfs(a, s)
        order = sorted(d, key=d.get)
        sig, dep = [0] * n, [0.0] * n
        sig[s] = 1
        for u in order:
            for v in a[u]:
                if d[v] == d[u] + 1:
                    sig[v] += sig[u]
        for v in reversed(order):
            for u in a[v]:
                if d[u] + 1 == d[v]:
                    dep[u] += sig[u] / sig[v] * (1 + dep[v])
            if v != s:
                b[v] += dep[v]
    return b



def make_net(r, nmax, isolated_ok=True):
    """network and its file; a node without links is written as a link to itself, links may be repeated in either direction"""
    g = cli.random_net(r, 310 if nmax > 300 else 2, nmax)
    if isolated_ok and r.random() < .25:
        h = cli.Net(g.n + r.randint(1, 4), None)
        h.lab = g.lab + ["iso%d" % i for i in range(h.n - g.n)]
        for i, j in g.order:
            h.add(i, j)
        g = h
    lines = cli.link_file(r, g).split("\n")[:-1]
    if r.random() < .3:
        for i, j in r.sample(g.order, min(3, len(g.order))):
            lines.append("%s %s" % ((g.lab[j], g.lab[i]) if r.random() < .5 else (g.lab[i], g.lab[j])))
    used = {x for e in g.e for x in e}
    for i in range(g.n):
        if i not in used or (isolated_ok and r.random() < .03):
            lines.append("%s %s" % (g.lab[i], g.lab[i]))
    if r.random() < .5:
        r.shuffle(lines)
    return g, "\n".join(lines) + ("\n" if r.random() < .8 else "")


def parse_links(text):
    """{unordered label pair: times listed} or None"""
    d = {}
    for ln in text.split("\n"):
        if ln:
            f = ln.split(" ")
            if len(f) != 2:
                return None
            k = tuple(sorted(f))
            d[k] = d.get(k, 0) + 1
    return d


def labelled(g):
    return {tuple(sorted((g.lab[i], g.lab[j]))) for i, j in g.e}


def num_eq(s, x, tol=2e-6):
    """printed with %g or %lf"""
    v = cli.fnum(s)
    return abs(v - x) <= tol * (1 + abs(x)) * (1 if abs(x) < 1e5 else 5)


class U:
    def __init__(self, c):
        self.c = c
        self.exe = build.cli(PROGS, "san")

    def go(self, prog, args, files, want=(), cpu=40):
        self.c.input(prog + " " + " ".join(args) + " | " + repr(sorted(files.items())), sum(len(x) for x in files.values()) > 25)
        self.info = None
        return cli.run(self.c, prog, self.exe[prog], args, files, want=want, cpu=cpu), (self.exe[prog], args, files, None)

    def ck(self, cond, key, msg, info):
        return cli.check(self.c, cond, key, msg, *info)

    def countlinks(self, r, big=False):
        g, t = make_net(r, 420 if big else 40)
        o, info = self.go("countlinks", ["net.dat"], {"net.dat": t})
        if not o.bad:
            want = "Nodes: %d\tLinks: %d\t<k> = %g\n" % (g.n, len(g.e), 2 * len(g.e) / g.n)
            self.ck(o.out == want, "countlinks", lambda: "printed %r, expected %r" % (o.out, want), info)

    def frontend(self, r):
        """the front end shows the size of the network it is about to analyse: distinct labels, distinct pairs"""
        files, want = {}, []
        for i in range(12):
            g, t = make_net(r, 30)
            rows = [x.split() for x in t.split("\n") if x.strip()]
            if any(len(x) != 2 for x in rows):
                rows = [x[:2] for x in rows]
            bad = r.random() < .25
            if bad:
                rows.insert(r.randrange(len(rows) + 1), r.choice([[], ["a"], ["a", "b", "1"], ["a", "b", "c", "d"]]))
            elif r.random() < .5:
                for _ in range(r.randint(1, 4)):
                    x = list(r.choice(rows))
                    rows.insert(r.randrange(len(rows) + 1), x[::-1] if r.random() < .5 else x)
            if r.random() < .2:
                rows.append(["s", "s"]) if not bad else None
            f = "f%d" % i
            files[f] = "".join(r.choice(["", " "]) + r.choice([" ", "\t", "  "]).join(x) + r.choice(["", " "]) + "\n" for x in rows)
            want.append("0 0 0" if bad else "1 %d %d" % (len({y for x in rows for y in x}), len({frozenset(x) for x in rows})))
        args = [os.path.join(build.VERIF, "harness", "frontend.py"), os.path.join(build.REPO, "frontend", "network.py")] + sorted(files, key=lambda f: int(f[1:]))
        self.c.input("frontend | " + repr(sorted(files.items())), True)
        o = cli.run(self.c, "frontend", sys.executable, args, files)
        if not o.bad:
            got = o.out.split("\n")[:-1]
            self.ck(got == want, "frontend", lambda: "the front end says %s, expected %s" % (got, want), (sys.executable, args, files, None))

    def getgiant(self, r, big=False):
        g, t = make_net(r, 420 if big else 40)
        o, info = self.go("getgiant", ["net.dat"], {"net.dat": t})
        if o.bad:
            return
        comp, k = cli.components(g)
        size = [comp.count(x) for x in range(k)]
        d = parse_links(o.out)
        if self.ck(d is not None, "getgiant:format", lambda: "output %r" % o.out[:200], info):
            fam = [{tuple(sorted((g.lab[i], g.lab[j]))) for i, j in g.e if comp[i] == x} for x in range(k) if size[x] == max(size)]
            self.ck(set(d) in fam, "getgiant", lambda: "%d links printed, the giant component has %s; missing %s, alien %s" % (len(d), sorted({len(f) for f in fam}), sorted(fam[0] - set(d))[:3], sorted(set(d) - labelled(g))[:3]), info)
            self.ck(all(x == 1 for x in d.values()), "getgiant:twice", "a link is listed more than once", info)

    def lapspec(self, r):
        g, t = make_net(r, 14)
        o, info = self.go("lapspec", ["net.dat"], {"net.dat": t})
        if o.bad:
            return
        rows = [ln.split() for ln in o.out.split("\n") if ln]
        e = spectrum(g)
        if self.ck(len(rows) == g.n and all(len(x) == 2 and x[0] == str(i + 1) for i, x in enumerate(rows)), "lapspec:format", lambda: "output %r" % o.out[:200], info):
            for (i, v), x in zip(rows, e):
                self.ck(abs(cli.fnum(v) - x) < 2e-6, "lapspec", lambda: "eigenvalue %s printed %s, expected %.8f" % (i, v, x), info)

    def netprop(self, r, big=False):
        if big:
            n = r.randint(1010, 1500)
            g = cli.Net(2 * n)
            for i in range(n):
                g.add(2 * i, 2 * i + 1)
            t = cli.link_file(r, g)
            o, info = self.go("netprop", ["net.dat"], {"net.dat": t}, cpu=300)
            if not o.bad:
                self.ck("Num_components %d\nSize_GC 2\nAv_size_other 2\nNodes %d\nLinks %d\n" % (n, 2 * n, n) in o.out, "netprop:components", lambda: "printed %r for %d separate pairs" % (o.out[:90], n), info)
            return
        g, t = make_net(r, 14)
        o, info = self.go("netprop", ["net.dat"], {"net.dat": t})
        if o.bad:
            return
        d = {}
        for ln in o.out.split("\n"):
            if ln:
                f = ln.split(" ")
                if not self.ck(len(f) == 2 and f[0] not in d, "netprop:format", lambda: "line %r" % ln, info):
                    return
                d[f[0]] = f[1]
        a, n = g.adj(), g.n
        comp, k = cli.components(g)
        size = [comp.count(x) for x in range(k)]
        deg = [len(x) for x in a]
        M = sum(deg)
        w = {"Num_components": k, "Size_GC": max(size), "Av_size_other": (n - max(size)) / (k - 1) if k > 1 else 0, "Nodes": n, "Links": len(g.e), "Av_degree": M / n}
        if n > 1:
            w["Inverse_path_length"] = sum(1 / x for s in range(n) for t2, x in cli.bfs(a, s).items() if t2 != s) / (n * (n - 1))
        cl = [sum(1 for j in a[i] for l in a[i] if l in a[j]) / (deg[i] * (deg[i] - 1)) for i in range(n) if deg[i] > 1]
        if cl:
            w["Clustering"] = sum(cl) / len(cl)
        if M:
            sjk = sum(deg[i] * deg[j] for i in range(n) for j in a[i]) / M
            sj = sum((deg[i] + deg[j]) / 2 for i in range(n) for j in a[i]) / M
            s2 = sum((deg[i] ** 2 + deg[j] ** 2) / 2 for i in range(n) for j in a[i]) / M
            if s2 - sj * sj > 1e-9:
                w["Assortativity"] = (sjk - sj * sj) / (s2 - sj * sj)
            w["K_K2"] = (M / n) / (sum(x * x for x in deg) / n)
            e = spectrum(g)
            w["Synchronizability"] = e[-1] / e[k]
        b = betweenness(g)
        mu = sum(b) / n
        w.update({"Betweenness_mean": mu, "Betweenness_std": math.sqrt(sum((x - mu) ** 2 for x in b) / n), "Betweenness_min": min(b), "Betweenness_max": max(b)})
        for q, x in w.items():
            self.ck(q in d and num_eq(d.get(q, "x"), x, 6e-6 if q.startswith("Av_") else 2e-6), "netprop:" + q, lambda: "%s printed %s, expected %.8g" % (q, d.get(q), x), info)
            self.c.count("monitor.netprop_values")

    def nodeprop(self, r, big=False):
        g, t = make_net(r, 420 if big else 20)
        o, info = self.go("nodeprop", ["net.dat"], {"net.dat": t})
        if o.bad:
            return
        rows = {}
        for ln in o.out.split("\n"):
            if ln:
                f = ln.split(" ")
                if not self.ck(len(f) == 3 and f[0] not in rows, "nodeprop:format", lambda: "line %r repeated or malformed" % ln, info):
                    return
                rows[f[0]] = f
        self.ck(set(rows) == set(g.lab), "nodeprop:nodes", lambda: "missing %s, extra %s" % (sorted(set(g.lab) - set(rows))[:3], sorted(set(rows) - set(g.lab))[:3]), info)
        a = g.adj()
        b = betweenness(g)
        for i, l in enumerate(g.lab):
            if l in rows:
                self.ck(rows[l][1] == str(len(a[i])), "nodeprop:degree", lambda: "degree of %s printed %s, is %d" % (l, rows[l][1], len(a[i])), info)
                self.ck(num_eq(rows[l][2], b[i], 6e-6), "nodeprop:betweenness", lambda: "betweenness of %s printed %s, expected %.8g" % (l, rows[l][2], b[i]), info)

    def netcompare(self, r, big=False):
        g, t = make_net(r, 420 if big else 16)
        if r.random() < .15:
            h, t2 = g, cli.link_file(r, g) + "".join("%s %s\n" % (x, x) for x in g.lab)
        else:
            h, t2 = make_net(r, 420 if big else 16)
            for i in range(h.n):                       # common labels
                if i < g.n and r.random() < .8:
                    x = g.lab[i]
                    if x not in h.lab:
                        old = h.lab[i]
                        h.lab[i] = x
                        t2 = "\n".join(" ".join(x if y == old else y for y in ln.split()) for ln in t2.split("\n"))
        o, info = self.go("netcompare", ["A.dat", "B.dat"], {"A.dat": t, "B.dat": t2})
        if o.bad:
            return
        d = {}
        for ln in o.out.split("\n"):
            if ln:
                x = ln.split(" = ")
                d[x[0]] = x[-1]
        A, B = set(g.lab), set(h.lab)
        la, lb = labelled(g), labelled(h)
        inA = {e for e in la if e[0] in B and e[1] in B}
        inB = {e for e in lb if e[0] in A and e[1] in A}
        com = inA & inB
        w = {"S_A": len(A), "S_B": len(B), "S_(A&B)": len(A & B), "L_A": len(inA), "L_B": len(inB), "L_(A&B)": len(com)}
        for q, x in w.items():
            self.ck(d.get(q) == str(x), "netcompare:" + q, lambda: "%s printed %s, expected %d" % (q, d.get(q), x), info)
        f = {"p_n(A|B)": (len(A & B), len(B)), "p_n(B|A)": (len(A & B), len(A)), "p_l(A|B)": (len(com), len(inB)), "p_l(B|A)": (len(com), len(inA))}
        for q, (x, y) in f.items():
            if y:
                self.ck(num_eq(d.get(q, "x"), x / y), "netcompare:" + q, lambda: "%s printed %s, expected %.8f" % (q, d.get(q), x / y), info)
        self.c.count("monitor.common_links", len(com))

    def netrandomize(self, r, big=False):
        g, t = make_net(r, 420 if big else 30)
        o, info = self.go("netrandomize", ["net.dat", str(r.randrange(1, 10 ** 6))], {"net.dat": t})
        if o.bad:
            return
        d = parse_links(o.out)
        if self.ck(d is not None, "netrandomize:format", lambda: "output %r" % o.out[:200], info):
            self.ck(all(x == 1 for x in d.values()) and all(a != b for a, b in d), "netrandomize:simple", "a link is listed twice or joins a node to itself", info)
            deg = {}
            for a, b in d:
                deg[a] = deg.get(a, 0) + 1
                deg[b] = deg.get(b, 0) + 1
            want = {g.lab[i]: len(x) for i, x in enumerate(g.adj()) if x}
            self.ck(deg == want, "netrandomize:degrees", lambda: "degrees changed: %s" % [(x, want.get(x), deg.get(x)) for x in set(want) | set(deg) if want.get(x) != deg.get(x)][:4], info)
            if set(d) != labelled(g):
                self.c.count("monitor.networks_rewired")

    def mutualinfo(self, r, big=False):
        n = r.randint(310, 420) if big else r.choice([1, 2, 3, 5, 8, 12, 30, 120])
        lab = cli.labels(r, n)
        kind = r.randrange(4)
        a = [r.randrange(max(1, r.choice([1, 2, 3, n]))) for _ in range(n)]
        a = [0] * n if kind == 0 else list(range(n)) if kind == 1 else a
        b = list(a) if r.random() < .25 else [r.randrange(r.choice([1, 2, 3, n])) for _ in range(n)]
        if r.random() < .2:
            b = [x if r.random() < .9 else r.randrange(n) for x in a]

        def text(m):
            gr = {}
            for i in sorted(range(n), key=lambda _: r.random()):
                gr.setdefault(m[i], []).append(lab[i])
            sep = r.choice(["\n///\n", " ///\n", "\n///\n\n"])
            s = sep.join(r.choice(["\n", " ", "\t"]).join(x) for x in gr.values())
            return s + (sep if r.random() < .6 else "\n" if r.random() < .5 else "")
        o, info = self.go("mutualinfo", ["a.part", "b.part"], {"a.part": text(a), "b.part": text(b)})
        if o.bad:
            return

        def H(v):
            q = {}
            for x in v:
                q[x] = q.get(x, 0) + 1
            return -sum(x / n * math.log(x / n) for x in q.values())
        ha, hb, hj = H(a), H(b), H(list(zip(a, b)))
        want = 1.0 if ha + hb < 1e-12 else 2 * (ha + hb - hj) / (ha + hb)
        m = re.match(r"^MI = (\S+)\n$", o.out)
        if self.ck(m is not None, "mutualinfo:format", lambda: "output %r" % o.out[:100], info):
            self.ck(num_eq(m.group(1), want), "mutualinfo", lambda: "printed %s, expected %.8f" % (m.group(1), want), info)

    def bipartmod(self, r, weighted):
        prog = "bipartitemodularity_w" if weighted else "bipartitemodularity"
        while True:
            l1, l2, e, order = bip_net(r)
            inv = r.random() < .4
            side, lab = (1, l2) if inv else (0, l1)
            teams = {}
            for (i, t), w in e.items():
                teams.setdefault((t, i)[inv], []).append(((i, t)[inv], w if weighted else 1.0))
            s1 = sum(w for ms in teams.values() for _, w in ms)
            s2 = sum(sum(w for _, w in ms) ** 2 for ms in teams.values())
            if abs(s2 - s1) > 1e-9:
                break
        used = sorted({x[side] for x in e})
        mod = {u: r.randrange(r.choice([1, 2, 3, len(used)])) for u in used}
        gr = {}
        for u in sorted(used, key=lambda _: r.random()):
            gr.setdefault(mod[u], []).append(lab[u])
        text = "".join(r.choice([" ", "\t"]).join([l1[i], l2[t]] + ([cli.fw(e[(i, t)])] if weighted else [])) + "\n" for i, t in order)
        o, info = self.go(prog, ["net.dat", "part.dat", str(int(inv))], {"net.dat": text, "part.dat": "\n///\n".join(" ".join(x) for x in gr.values()) + "\n"})
        if o.bad:
            return
        k = {}
        for ms in teams.values():
            for u, w in ms:
                k[u] = k.get(u, 0) + w
        q = 0.0
        for ms in teams.values():
            for u, w in ms:
                for v, x in ms:
                    if u != v and mod[u] == mod[v]:
                        q += w * x / (s2 - s1)
        for u in used:
            for v in used:
                if u != v and mod[u] == mod[v]:
                    q -= k[u] * k[v] / s1 ** 2
        m = re.match(r"^M = (\S+)\n$", o.out)
        if self.ck(m is not None, prog + ":format", lambda: "output %r" % o.out[:100], info):
            self.ck(num_eq(m.group(1), q), prog, lambda: "printed %s, expected %.8f" % (m.group(1), q), info)

    def modularbipart(self, r):
        nm, ms, nt = r.randint(1, 6), r.randint(1, 8), r.randint(0, 25)
        ts = r.randint(0, nm * ms)
        hom = r.choice([0, .3, .7, 1])
        o, info = self.go("modularbipart", [str(nm), str(ms), str(nt), str(ts), str(hom), str(r.randrange(1, 10 ** 6))], {}, want=("binet.net",))
        if o.bad:
            return
        t = o.files.get("binet.net", "").split("\n")
        S = nm * ms
        head = ["*Vertices %d %d" % (S + nt, S)] + ['%d "A%d"' % (i, i) for i in range(1, S + 1)] + ['%d "B%d"' % (S + i, i) for i in range(1, nt + 1)] + ["*Edges"]
        if not self.ck(t[:len(head)] == head, "modularbipart:nodes", lambda: "node list differs: %r" % t[:4], info):
            return
        mem = {}
        for ln in t[len(head):]:
            if ln:
                x = ln.split()
                if not self.ck(len(x) == 2 and x[0].isdigit() and x[1].isdigit() and 1 <= int(x[0]) <= S < int(x[1]) <= S + nt, "modularbipart:links", lambda: "link line %r" % ln, info):
                    return
                mem.setdefault(int(x[1]), []).append(int(x[0]))
        for b in range(S + 1, S + nt + 1):
            x = mem.get(b, [])
            if not self.ck(len(x) == ts and len(set(x)) == ts, "modularbipart:teams", lambda: "team B%d has %d members (%d distinct), asked for %d" % (b - S, len(x), len(set(x)), ts), info):
                return
            if hom == 1:
                n = {}
                for y in x:
                    n[(y - 1) // ms] = n.get((y - 1) // ms, 0) + 1
                self.ck(not x or max(n.values()) >= min(ts, ms), "modularbipart:homogeneity", "team B%d with homogeneity 1 does not fill one module" % (b - S), info)

    def layout(self, r, multi):
        g, t = make_net(r, 8)
        if multi:
            files, nets = {"0.dat": t}, [g]
            for i in range(1, r.randint(2, 3)):
                h, t2 = make_net(r, 8)
                files["%d.dat" % i] = t2
                nets.append(h)
            args = sorted(files)
            lab = {x for h in nets for x in h.lab}
            o, info = self.go("multinetlayout", args, files, cpu=200)
        else:
            m = r.randint(1, 3)
            args = ["net.dat", str(r.randrange(1, 10 ** 6)), r.choice(["-1", "0.01", "0.05"]), str(r.choice([0, 1, 10, 200])), r.choice(["-1", "0.5", "0.05"]), str(m)]
            lab = set(g.lab)
            o, info = self.go("netlayout", args, {"net.dat": t})
        if o.bad:
            return
        prog = "multinetlayout" if multi else "netlayout"
        rows = [ln.split() for ln in o.out.split("\n") if ln]
        ok = all(len(x) == 3 and all(math.isfinite(cli.fnum(y)) for y in x[1:]) for x in rows)
        if self.ck(ok, prog + ":format", lambda: "output %r" % o.out[:200], info):
            names = [x[0] for x in rows]
            if not multi:
                self.ck(all(-1e-9 <= cli.fnum(y) <= 1 + 1e-9 for x in rows for y in x[1:]), prog + ":square", "a node lies outside the unit square", info)
            self.ck(len(names) == len(set(names)) and set(names) == lab, prog + ":nodes", lambda: "missing %s, extra %s or repeated nodes" % (sorted(lab - set(names))[:3], sorted(set(names) - lab)[:3]), info)


@prop("P34")
def p34(c):
    c.rule = ("link files of 2-40 nodes (11 shapes, 6 label styles, repeated links in either direction, nodes with a link to themselves only), pairs of such files with common labels, "
              "partitions of 1-120 nodes, two-mode files with partitions of either side, generator arguments; non-trivial: input of more than 25 characters")
    u = U(c)
    todo = [(u.countlinks, 1), (u.getgiant, 2), (u.lapspec, 2), (u.netprop, 4), (u.nodeprop, 2), (u.netcompare, 3), (u.netrandomize, 2), (u.mutualinfo, 3),
            (lambda r: u.bipartmod(r, False), 2), (lambda r: u.bipartmod(r, True), 2), (u.modularbipart, 2), (lambda r: u.layout(r, False), 2)]
    todo = [f for f, n in todo for _ in range(n)]
    large = [u.countlinks, u.getgiant, u.nodeprop, u.netcompare, u.netrandomize, u.mutualinfo]
    N = 40000 if c.tier == "thorough" else 3200

    def one(k):
        r = random.Random("P34-%d-%d" % (c.seed, k))
        if k % 800 == 5:
            u.netprop(r, big=True)
        elif k % 400 == 9:
            u.layout(r, True)
        elif k % 80 == 23:
            c.count("monitor.large_files")
            large[k // 80 % len(large)](r, True)
        elif k % 100 == 17:
            u.frontend(r)
        else:
            todo[k % len(todo)](r)

    cli.pmap(one, N)
