"""The legacy annealing (harness) and its program."""
import math, random, re
from . import build, cli
from .props import prop
from .p18 import role
from .p34 import make_net


def parse_part(text):
    """[(number, counts, labels)] and the trailing lines; None if a line cannot be read"""
    gr, tail = [], []
    for ln in text.split("\n"):
        if ln.startswith("#"):
            tail.append(ln)
        elif ln:
            x = ln.split(" --- ")
            f = x[0].split(" ")
            if len(x) != 2 or len(f) != 8:
                return None, ln
            gr.append((int(f[0]), [cli.fnum(y) for y in f[1:]], x[1].split(" ")))
    return gr, tail


def program(c, exe, r):
    g, text = make_net(r, 14)
    if not g.e:
        return
    rep = r.choice([0, 0, 1, 2, 3])
    seed = r.randrange(1, 10 ** 6)
    args = ["-f", "net.dat", "-s", str(seed), "-i", r.choice(["0.05", "0.2"]), "-c", r.choice(["0.6", "0.8"]), "-r", str(rep)]
    stdin = None
    files = {"net.dat": text}
    ask = r.random() < .2
    if ask:                                            # the program asks for its parameters
        args, stdin = [], "%d\nnet.dat\n0.1\n0.7\n%d\n" % (seed, rep)
    c.input("netcarto_legacy " + " ".join(args) + text.replace("\n", ";"), g.n > 3 and len(g.e) > 2)
    info = (exe, args, files, stdin)
    want = ("modules.dat", "network.net", "modules.clu", "node_prop.dat", "roles.dat", "roles.clu", "randomized_mod.dat")
    o = cli.run(c, "netcarto_legacy", exe, args, files, stdin, want=want, cpu=60)
    if o.bad:
        return

    def ck(cond, key, msg):
        return cli.check(c, cond, "cli:" + key, msg, *info)
    if not ck(all(f in o.files for f in want), "files", lambda: "missing output %s" % [f for f in want if f not in o.files]):
        return
    c.count("monitor.program_partitions")
    # modules
    gr, tail = parse_part(o.files["modules.dat"])
    if not ck(gr is not None, "modules", lambda: "line %r" % tail):
        return
    head, gr = gr, [x[2] for x in gr]
    flat = [x for y in gr for x in y]
    if not ck(len(flat) == len(set(flat)) and set(flat) == set(g.lab) and all(gr), "modules", lambda: "modules list %d nodes (%d distinct), the network has %d; or an empty module" % (len(flat), len(set(flat)), g.n)):
        return
    mod = {x: k for k, y in enumerate(gr) for x in y}
    a = g.adj()
    L = sum(map(len, a))
    q = 0.0
    for k in range(len(gr)):
        mem = [i for i in range(g.n) if mod[g.lab[i]] == k]
        ms = set(mem)
        q += sum(1 for i in mem for j in a[i] if j in ms) / L - (sum(len(a[i]) for i in mem) / L) ** 2
    m = re.match(r"^# Modularity = (\S+)$", tail[-1]) if tail else None
    ck(m is not None and abs(cli.fnum(m.group(1)) - q) < 6e-6 * (1 + abs(q)), "modularity", lambda: "prints %s, the printed partition has %.8f" % (tail[-1:], q))
    ck(len({x[0] for x in head}) == len(head), "modules", lambda: "module numbers repeated: %s" % [x[0] for x in head])
    for no, cnt, labs in head:
        ms = {i for i in range(g.n) if g.lab[i] in labs}
        inn = sum(1 for i, j in g.e if i in ms and j in ms)
        tot = sum(1 for i, j in g.e if i in ms or j in ms)
        want2 = [len(labs), tot, inn, tot - inn, tot, inn, tot - inn]
        ck(cnt == want2, "modules:counts", lambda: "module %d prints %s, recount %s" % (no, cnt, want2))
    # network in Pajek format: nodes in order of appearance
    t = o.files["network.net"].split("\n")
    order = []
    for ln in t[1:]:
        if ln.startswith("*"):
            break
        x = re.match(r'^\s*(\d+) "(.*)"', ln)
        if not ck(x is not None and int(x.group(1)) == len(order) + 1, "network", lambda: "node line %r" % ln):
            return
        order.append(x.group(2))
    ck(t[0].split() == ["*Vertices", str(g.n)] and sorted(order) == sorted(g.lab), "network", lambda: "first line %r, %d nodes" % (t[0], len(order)))
    es = set()
    for ln in t[len(order) + 2:]:
        if ln.strip():
            x = [int(y) - 1 for y in ln.split()[:2]]
            k = tuple(sorted((order[x[0]], order[x[1]])))
            ck(k not in es, "network", lambda: "link %s written twice" % (k,))
            es.add(k)
    ck(es == {tuple(sorted((g.lab[i], g.lab[j]))) for i, j in g.e}, "network", lambda: "%d links written, the network has %d (or other ones)" % (len(es), len(g.e)))
    # partition files in node order
    def clu(name, same):
        x = o.files[name].split()
        if ck(x[:2] == ["*Vertices", str(g.n)] and len(x) == g.n + 2, name, lambda: "contents %r" % o.files[name][:100]):
            bad = [(l, k, same[l]) for l, k in zip(order, x[2:]) if k != str(same[l])]
            ck(not bad, name, lambda: "node, number here, number in the .dat file: %s" % bad[:4])
    clu("modules.clu", {l: x[0] for x in head for l in x[2]})
    # node properties
    idx = {x: i for i, x in enumerate(g.lab)}
    ins = [sum(1 for j in a[i] if mod[g.lab[j]] == mod[g.lab[i]]) for i in range(g.n)]
    seen = set()
    exp = {}
    for i, x in enumerate(g.lab):
        mem = [idx[y] for y in gr[mod[x]]]
        mu = sum(ins[j] for j in mem) / len(mem)
        var = sum((ins[j] - mu) ** 2 for j in mem) / len(mem)
        z = (ins[i] - mu) / math.sqrt(var) if var > 1e-12 else 0.0
        by = {}
        for j in a[i]:
            by[mod[g.lab[j]]] = by.get(mod[g.lab[j]], 0) + 1
        P = 1 - sum((n / len(a[i])) ** 2 for n in by.values()) if a[i] else None
        exp[x] = (P, z)
    for ln in o.files["node_prop.dat"].split("\n"):
        if not ln:
            continue
        f = ln.split(" ")
        if not ck(len(f) == 4 and f[0] in idx and f[0] not in seen, "node_prop", lambda: "line %r" % ln):
            return
        seen.add(f[0])
        P, z = exp[f[0]]
        ck(f[1] == str(len(a[idx[f[0]]])), "node_prop:degree", lambda: "degree of %s printed %s, is %d" % (f[0], f[1], len(a[idx[f[0]]])))
        ck(P is None or abs(cli.fnum(f[2]) - P) < 2e-6, "node_prop:participation", lambda: "participation of %s printed %s, expected %s" % (f[0], f[2], P))
        ck(abs(cli.fnum(f[3]) - z) < 2e-6 * (1 + abs(z)), "node_prop:connectivity", lambda: "within-module degree of %s printed %s, expected %s" % (f[0], f[3], z))
        c.count("monitor.node_properties")
    ck(seen == set(g.lab), "node_prop", lambda: "%d nodes listed, the network has %d" % (len(seen), g.n))
    # roles
    ro, bad = parse_part(o.files["roles.dat"])
    if not ck(ro is not None, "roles", lambda: "line %r" % bad):
        return
    flat = [x for y in ro for x in y[2]]
    if ck(len(flat) == len(set(flat)) and set(flat) == set(g.lab), "roles", lambda: "roles list %d nodes (%d distinct), the network has %d" % (len(flat), len(set(flat)), g.n)):
        clu("roles.clu", {x: y[0] for y in ro for x in y[2]})
        for no, _, labs in ro:
            for x in labs:
                P, z = exp[x]
                if P is not None:
                    can = {role(P + d, z + e) for d in (-1e-9, 0, 1e-9) for e in (-1e-9, 0, 1e-9)}
                    ck(no in can, "roles", lambda: "role of %s printed %d, expected %s (P %.6f, z %.6f)" % (x, no, can, P, z))
                    c.count("monitor.roles")
    # randomizations
    ln = o.files["randomized_mod.dat"].split("\n")
    v = [cli.fnum(x) for x in ln[1].split()] if len(ln) > 1 else []
    if ck(len(v) == 3, "randomized", lambda: "contents %r" % o.files["randomized_mod.dat"]):
        ck(abs(v[0] - q) < 2e-6, "randomized", lambda: "modularity %s, the partition has %.8f" % (v[0], q))
        if rep:
            ck(-.5 <= v[1] < 1 and 0 <= v[2] <= .76 and (rep > 1 or v[2] < 1e-6), "randomized", lambda: "average %s and deviation %s of %d randomizations" % (v[1], v[2], rep))


@prop("P35")
def p35(c):
    c.rule = ("networks of 0-40 nodes (13 shapes, weights) x singleton or random start, limits of 1 to n+4 groups, collective moves on or off, temperatures, schedules and lengths; leftovers of earlier partitions; "
              "optimum by enumeration up to 6 nodes; the program on files of 2-18 nodes with all options and by prompts; non-trivial: more than 3 nodes and 2 links")
    c.harness("p35", cpu=30)
    exe = build.cli(["netcarto_legacy"], "san")["netcarto_legacy"]
    cli.pmap(lambda k: program(c, exe, random.Random("P35-%d-%d" % (c.seed, k))), 8000 if c.tier == "thorough" else 500)
