"""The module-detection program (netcarto)."""
import random, re
from . import build, cli
from .props import prop


def bip_net(r, big=False):
    """two-mode network: actors and teams; same labels may appear on both sides"""
    while True:
        n1, n2 = (r.randint(15, 40), r.randint(5, 20)) if big else (r.randint(1, 14), r.randint(1, 10))
        p = r.choice([.15, .3, .5, .9])
        wm = r.randrange(3)
        e = {}
        for i in range(n1):
            for t in range(n2):
                q = p if wm or r.random() < .5 else (.8 if i % 3 == t % 3 else .1)
                if r.random() < q:
                    e[(i, t)] = 1.0 if wm == 0 else float(r.randint(1, 5)) if wm == 1 else r.randint(1, 32) / 8
        if not e:
            continue
        l1, l2 = cli.labels(r, n1), cli.labels(r, n2)
        order = list(e)
        r.shuffle(order)
        return l1, l2, e, order


class Model:
    """strengths and links that the modularity of the read network is made of; nodes by label"""
    def __init__(self):
        self.k, self.a = {}, {}

    def one(self, g, weighted):
        m = Model()
        W = 2 * sum(w if weighted else 1 for w in g.e.values())
        for (i, j), w in g.e.items():
            x = (w if weighted else 1.0) / W
            u, v = g.lab[i], g.lab[j]
            for p, q in ((u, v), (v, u)):
                m.k[p] = m.k.get(p, 0) + x
                m.a.setdefault(p, {})[q] = x
        return m

    def two(self, lab, pairs):
        """pairs: (actor label, team id, weight)"""
        m = Model()
        team = {}
        for u, t, w in pairs:
            team.setdefault(t, []).append((u, w))
            m.k[u] = m.k.get(u, 0) + w
            m.a.setdefault(u, {})
        s2 = sum(w for ms in team.values() for _, w in ms)
        s1 = 0.0
        for ms in team.values():
            s = sum(w for _, w in ms)
            s1 += s * (s - s / len(ms))
            for x in range(len(ms)):
                for y in range(x):
                    (u, a), (v, b) = ms[x], ms[y]
                    m.a[u][v] = m.a[u].get(v, 0) + a * b
                    m.a[v][u] = m.a[v].get(u, 0) + a * b
        for u in m.k:
            m.k[u] /= s2
            for v in m.a[u]:
                m.a[u][v] /= s1
        return m

    def modularity(self, mod, diag):
        q = 0.0
        groups = {}
        for u in self.k:
            groups.setdefault(mod[u], []).append(u)
        for g in groups.values():
            s = sum(self.k[u] for u in g)
            q += sum(self.a[u].get(v, 0) for u in g for v in g if u != v) - s * s + sum(self.k[u] ** 2 for u in g)
        if diag:
            q -= sum(x * x for x in self.k.values())
        return q

    def roles(self, mod):
        """{label: (z, spread is clear, participation)}"""
        ins, out = {}, {}
        for u in self.k:
            ins[u] = sum(w for v, w in self.a[u].items() if mod[v] == mod[u])
        groups = {}
        for u in self.k:
            groups.setdefault(mod[u], []).append(u)
        for g in groups.values():
            mu = sum(ins[u] for u in g) / len(g)
            var = sum((ins[u] - mu) ** 2 for u in g) / len(g)
            flat = var <= 1e-22 * mu * mu
            for u in g:
                s = sum(self.a[u].values())
                by = {}
                for v, w in self.a[u].items():
                    by[mod[v]] = by.get(mod[v], 0) + w
                P = 1 - sum((x / s) ** 2 for x in by.values()) if s else 0.0
                out[u] = (0.0 if flat else (ins[u] - mu) / var ** .5, P)
        return out


def role(P, z):
    if z < 2.5:
        return 1 if P < .05 else 2 if P < .62 else 3 if P < .8 else 4
    return 5 if P < .3 else 6 if P < .75 else 7


def parse(text):
    """(Q, Qdiag, modules as list of lists, rows) of the program's output"""
    q = re.search(r"^ *# Modularity: (\S+)$", text, re.M)
    qd = re.search(r"^ *# Modularity \(with diagonal\): (\S+)$", text, re.M)
    if not q or not qd:
        return None
    body = text[qd.end():].lstrip("\n")
    if body.startswith("Label"):
        rows = [ln.split("\t") for ln in body.split("\n")[1:] if ln]
        return float(q.group(1)), float(qd.group(1)), None, rows
    return float(q.group(1)), float(qd.group(1)), [[x for x in ln.split("\t") if x] for ln in body.split("\n") if ln], None


def check_output(c, text, m, roles, where, info):
    o = parse(text)
    if not cli.check(c, o is not None, "format:" + where, lambda: "no modularity lines in %r" % text[:200], *info):
        return None
    q, qd, mods, rows = o
    mod = {}
    dup = []
    if roles:
        if not cli.check(c, rows is not None and all(len(x) == 5 for x in rows), "format:" + where, lambda: "table expected, got %r" % text[:300], *info):
            return None
        for x in rows:
            lab = x[0].rstrip(" ")
            if lab in mod:
                dup.append(lab)
            mod[lab] = int(x[1])
    else:
        if not cli.check(c, mods is not None, "format:" + where, "modules expected", *info):
            return None
        for k, g in enumerate(mods):
            for u in g:
                if u in mod:
                    dup.append(u)
                mod[u] = k
    ok = cli.check(c, not dup and set(mod) == set(m.k), "cover:" + where,
                   lambda: "missing %s extra %s repeated %s" % (sorted(set(m.k) - set(mod))[:4], sorted(set(mod) - set(m.k))[:4], dup[:4]), *info)
    if not ok:
        return None
    if roles:
        ids = set(mod.values())
        cli.check(c, ids == set(range(len(ids))), "modules:" + where, lambda: "module numbers %s" % sorted(ids), *info)
    e, ed = m.modularity(mod, False), m.modularity(mod, True)
    cli.check(c, abs(q - e) < 2e-6, "modularity:" + where, lambda: "prints %f, the printed partition has %.7f" % (q, e), *info)
    cli.check(c, abs(qd - ed) < 2e-6, "modularity-diagonal:" + where, lambda: "prints %f, the printed partition has %.7f" % (qd, ed), *info)
    if roles:
        R = m.roles(mod)
        for x in rows:
            lab, z, P, ro = x[0].rstrip(" "), float(x[2]), float(x[3]), x[4]
            ez, eP = R[lab]
            cli.check(c, abs(P - eP) < 2e-6, "participation:" + where, lambda: "participation of %s printed %f, expected %.7f" % (lab, P, eP), *info)
            cli.check(c, abs(z - ez) < 2e-6 + 1e-6 * abs(ez), "connectivity:" + where, lambda: "connectivity of %s printed %f, expected %.7f" % (lab, z, ez), *info)
            t = 1e-9
            can = {"R%d" % role(eP + dp, ez + dz) for dp in (-t, 0, t) for dz in (-t, 0, t)}
            cli.check(c, ro in can, "role:" + where, lambda: "role of %s printed %s, expected %s (P %.6f z %.6f)" % (lab, ro, can, eP, ez), *info)
            c.count("monitor.roles")
    c.count("monitor.partitions_checked")
    c.count("monitor.modules_seen", len(set(mod.values())))
    return mod


def bad_inputs(r):
    L = "l" * r.choice([100, 101, 150, 400, 5000])
    return r.choice([
        ("missing-field", "a b\nc\nd e\n"), ("empty", ""), ("blank-line", "a b\n\nc d\n"), ("long-label", "a b\n%s c\n" % L),
        ("long-label", "a %s\nb c\n" % L), ("first-line", "a\n"), ("spaces", "   \n \n"), ("long-both", "%s %s\n" % (L, L))])


@prop("P18")
def p18(c):
    c.rule = ("link files of 2-60 nodes (11 shapes, 6 label styles, separators, weights) and two-mode files of up to 40x20 nodes x options -w -r -b -t -o -s -i -c -C; "
              "printed partitions and random ones read back with -p; unusable inputs; non-trivial: at least 4 nodes and 3 links")
    exe = build.cli(["netcarto"], "san")["netcarto"]
    N = 24000 if c.tier == "thorough" else 2400

    def one(k):
        r = random.Random("P18-%d-%d" % (c.seed, k))
        if k == 1000:
            return many(r)
        if k % 8 == 7:
            return bad(r)
        bip = r.random() < .35
        huge = k % 200 == 66
        bip = bip and not huge
        inv = bip and r.random() < .5
        weighted = r.random() < .45
        if bip:
            l1, l2, e, order = bip_net(r, k % 16 == 2)
            text = "".join(r.choice([" ", "\t"]).join([l1[i], l2[t]] + ([cli.fw(e[(i, t)])] if weighted else [])) + "\n" for i, t in order)
            pairs = [(l2[t], i, w) if inv else (l1[i], t, w) for (i, t), w in ((x, e[x] if weighted else 1.0) for x in order)]
            m = Model().two(None, pairs)
            nlinks = len(order)
        else:
            g = cli.random_net(r, 150 if huge else 2, 450 if huge else 60 if k % 16 == 0 else 18, r.randrange(3))
            text = cli.link_file(r, g, weighted)
            m = Model().one(g, weighted)
            nlinks = len(g.e)
        if r.random() < .2:
            text = text.rstrip("\n")
        base = (["-w"] if weighted else []) + (["-b"] if bip else []) + (["-t"] if inv or (not bip and r.random() < .1) else [])
        opt = list(base)
        roles = r.random() < .5
        if roles:
            opt.append("-r")
        tofile = r.random() < .6
        if tofile:
            opt += ["-o", "out.txt"]
        if r.random() < .6:
            opt += ["-s", str(r.randrange(1, 10 ** 6))]
        opt += ["-i", r.choice(["0.001", "0.01"]), "-c", "0.7"] if huge else ["-i", r.choice(["0.05", "0.1", "0.3", "1", "0.001"]), "-c", r.choice(["0.7", "0.9", "0.95", "0.97"])]
        if r.random() < .5:
            opt += ["-C", r.choice(["0", "0.5", "1"])]
        stdin = None
        if r.random() < .3:
            stdin = text
        else:
            opt += ["-f", "net.dat"]
        files = {"net.dat": text}
        c.input(" ".join(opt) + " | " + text.replace("\n", ";"), len(m.k) >= 4 and nlinks >= 3)
        info = (exe, opt, files, stdin)
        o = cli.run(c, "netcarto", exe, opt, files, stdin, want=("out.txt",))
        if o.bad:
            return
        txt = o.files.get("out.txt", "") if tofile else o.out
        mod = check_output(c, txt, m, roles, "run", info)
        if mod is None:
            return
        # feed a partition: the printed one or one of our own
        own = r.random() < .5
        if own or roles:
            ng = r.randint(1, max(1, len(m.k) // 2))
            if own:
                mod = {u: r.randrange(ng) for u in m.k}
            gr = {}
            for u in sorted(m.k, key=lambda _: r.random()):
                gr.setdefault(mod[u], []).append(u)
            tail = r.choice(["\t\n", "\n"])
            ptxt = ("# Modularity: 0.1\n# Modularity (with diagonal): 0.05\n" if r.random() < .5 else "") + "".join("\t".join(x) + tail for x in gr.values())
            if r.random() < .15:       # a node of an earlier module once more, and a label that is not in the network: both ignored
                x = r.choice(list(gr.values()))
                ptxt = ptxt.rstrip("\n\t") + "\t" + r.choice(x) + ("\tnot-a-node" if r.random() < .5 else "") + "\n"
            elif r.random() < .2:
                ptxt = ptxt.rstrip("\n\t")
        else:
            if not tofile:
                at = txt.index("# Modularity")
                ptxt = txt[at:]
            else:
                ptxt = txt
        files2 = {"net.dat": text, "part.txt": ptxt}
        roles2 = r.random() < .5
        opt2 = base + ["-f", "net.dat", "-p", "part.txt", "-o", "out.txt"] + (["-r"] if roles2 else [])
        info2 = (exe, opt2, files2, None)
        o2 = cli.run(c, "netcarto", exe, opt2, files2, want=("out.txt",))
        if o2.bad:
            return
        mod2 = check_output(c, o2.files.get("out.txt", ""), m, roles2, "readback", info2)
        if mod2 is None:
            return
        A, B = {}, {}
        for u in m.k:
            A.setdefault(mod[u], set()).add(u)
            B.setdefault(mod2[u], set()).add(u)
        cli.check(c, sorted(map(sorted, A.values())) == sorted(map(sorted, B.values())), "readback", "the partition given with -p is not the one reported", *info2)
        c.count("monitor.partitions_read_back")

    def many(r):
        """more nodes times modules than an unsigned int counts: pairs and triangles, each its own module"""
        n, lines, mods = r.randint(140000, 150000), [], []
        i = 0
        while i < n:
            s = 3 if r.random() < .1 else 2
            lab = ["n%d" % j for j in range(i, i + s)]
            lines += [" ".join((lab[x], lab[y])) for x in range(s) for y in range(x)]
            mods.append("\t".join(lab))
            i += s
        files = {"net.dat": "\n".join(lines) + "\n", "part.txt": "\n".join(mods) + "\n"}
        opt = ["-f", "net.dat", "-p", "part.txt", "-o", "out.txt", "-r"]
        c.input("many %d nodes %d modules" % (i, len(mods)), True)
        info = (exe, opt, files, None)
        o = cli.run(c, "netcarto", exe, opt, files, want=("out.txt",))
        if o.bad:
            return
        p = parse(o.files.get("out.txt", ""))
        L = len(lines)
        Q = sum((1 / L if g.count("\t") == 1 else 3 / L) - ((g.count("\t") * (g.count("\t") + 1)) / (2 * L)) ** 2 for g in mods)
        cli.check(c, p is not None and len(p[3] or []) == i and abs(p[1] - Q) < 2e-6, "many", lambda: "expected %d rows and modularity %.7f, got %s" % (i, Q, p and (len(p[3] or []), p[1])), *info)
        bad = [x for x in (p[3] or []) if len(x) != 5 or float(x[2]) or float(x[3]) or x[4] != "R1"]
        cli.check(c, not bad, "many-roles", lambda: "nodes of isolated complete modules with roles %s" % bad[:3], *info)
        c.count("monitor.roles", i)

    def bad(r):
        which = r.randrange(4)
        if which <= 1:
            tag, text = bad_inputs(r)
            opt = ["-f", "net.dat"] + r.choice([[], ["-b"], ["-r"], ["-b", "-t"]])
            files = {"net.dat": text}
        elif which == 2:
            tag, opt, files = r.choice([("no-file", ["-f", "absent.dat"], {}), ("no-part", ["-f", "net.dat", "-p", "absent"], {"net.dat": "a b\nb c\n"}),
                                        ("no-weight", ["-w", "-f", "net.dat"], {"net.dat": "a b 1\nb c\n"})])
        else:
            g = cli.random_net(r, 4, 10)
            mods = [g.lab[x] for x in range(g.n - 1)]
            tag, opt, files = "nodes-missing-from-partition", ["-f", "net.dat", "-p", "part.txt"], {"net.dat": cli.link_file(r, g), "part.txt": r.choice(["", "\t".join(mods) + "\n", "nobody\tnothing\n", "\n\n\n", "x" * 300 + "\n"])}
        c.input("bad " + tag + " ".join(opt) + repr(files), False)
        cli.run(c, "netcarto", exe, opt, files, cpu=20, expect_ok=None, tag=tag)
        c.count("monitor.rejections")

    cli.pmap(one, N)
