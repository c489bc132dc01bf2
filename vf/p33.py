"""Every program under the sanitizers: valid use ends with status zero; unreadable or malformed input and wrong arguments
end with a message; nothing crashes, corrupts memory or hangs."""
import random
from . import build, cli
from .props import prop
from .p18 import bip_net

NETPROGS = ["countlinks", "getgiant", "lapspec", "netprop", "nodeprop", "netrandomize", "netlayout", "multinetlayout", "netcompare", "netcarto", "netcarto_legacy",
            "reliability_links", "reliability_links_gibbs", "reliability_links_gibbs_sparse", "reliability_reconstruct", "reliability_links_mb", "reliability_links_mb_OR",
            "reliability_links_mb_gibbs", "reliability_links_mb_gibbs_OR", "only_degeneration_mb", "only_degeneration_mb_gibbs"]
WEIGHTED = ["reliability_links_k"]
RATINGS = ["multi_recommend_2", "multi_recommend_k", "multi_recommend_k_gibbs", "conflict"]
BIPPART = ["bipartitemodularity", "bipartitemodularity_w"]
ALL = NETPROGS + WEIGHTED + RATINGS + BIPPART + ["mutualinfo", "modularbipart"]
# cheap programs may be given larger networks: (largest number of nodes in valid runs)
SIZE = {"countlinks": 1200, "getgiant": 1200, "netcompare": 600, "nodeprop": 130, "netprop": 70, "lapspec": 90, "netrandomize": 250, "netlayout": 25, "multinetlayout": 8,
        "netcarto": 120, "netcarto_legacy": 25, "reliability_links": 26, "reliability_links_gibbs": 20, "reliability_links_gibbs_sparse": 20, "reliability_reconstruct": 12}
NARGS = {"netlayout": 6, "netrandomize": 2, "multinetlayout": 2, "netcompare": 2, "mutualinfo": 2, "modularbipart": 6, "bipartitemodularity": 3, "bipartitemodularity_w": 3,
         "countlinks": 1, "getgiant": 1, "lapspec": 1, "netprop": 1, "nodeprop": 1, "reliability_links_k": 3, "multi_recommend_2": 3, "multi_recommend_k": 4,
         "multi_recommend_k_gibbs": 4, "conflict": 2}


def args_of(r, prog, net="net.dat", other="net2.dat"):
    seed = str(r.choice([0, 1, 7, r.randrange(10 ** 6)]))
    if prog in ("countlinks", "getgiant", "lapspec", "netprop", "nodeprop"):
        return [net]
    if prog in ("multinetlayout", "netcompare", "mutualinfo"):
        return [net, other]
    if prog == "netlayout":
        return [net, seed, r.choice(["-1", "0.05", "0"]), r.choice(["0", "1", "20"]), r.choice(["-1", "0", "0.3"]), r.choice(["1", "2", "3", "0"])]
    if prog == "netcarto":
        return ["-f", net, "-s", seed, "-i", "0.1", "-c", "0.8"] + r.choice([[], ["-r"], ["-t"]])
    if prog == "netcarto_legacy":
        return ["-f", net, "-s", seed, "-i", "0.05", "-c", "0.6", "-r", r.choice(["0", "1", "2"])]
    if prog in BIPPART:
        return [net, other, r.choice(["0", "1"])]
    if prog == "reliability_links_k":
        return ["3", net, seed]
    if prog == "conflict":
        return [net, seed]
    if prog == "multi_recommend_2":
        return [net, other, seed]
    if prog in RATINGS:
        return ["3", net, other, seed]
    return [net, seed]


def shape(r, n):
    """one of the network shapes, exactly n nodes, as a list of pairs"""
    k = r.randrange(9)
    if k == 0 or n < 3:
        return [(0, i) for i in range(1, n)] or [(0, 0)]
    if k == 1:
        return [(i, i + 1) for i in range(n - 1)]
    if k == 2:
        m = min(n, 40)
        return [(i, j) for i in range(m) for j in range(i)]
    if k == 3:
        return [(i, i) for i in range(n)]
    if k == 4:
        return [(i, i ^ 1) for i in range(n - n % 2)]
    if k == 5:
        return [(i, (i + 1) % n) for i in range(n)] + [(i, i) for i in range(n)]
    if k == 6:
        return [(i, j) for i in range(0, n, 2) for j in range(1, n, 2) if r.random() < 6 / n] or [(0, 1)]
    if k == 7:
        return [(i, r.randrange(i)) for i in range(1, n)] * 2
    return [(i, j) for i in range(n) for j in r.sample(range(n), min(n, 3))]


def text_of(r, pairs, lab, weight=None):
    r.shuffle(pairs)
    return "".join(r.choice([" ", "\t"]).join([lab[i], lab[j]] + ([weight()] if weight else [])) + r.choice(["\n", "\n", " \n"]) for i, j in pairs)


def valid_input(r, prog):
    """well-formed files and arguments: (files, arguments, number of nodes)"""
    n = r.choice([1, 2, 3, 4, 5, 6, 8, 11])
    if r.random() < .25:
        n = r.randint(2, SIZE.get(prog, 14))
    files = {}
    if prog in NETPROGS:
        if prog in ("netcarto", "netcarto_legacy"):
            n = max(n, 2)
        if prog in ("multinetlayout",):
            n = min(n, 8)
        pairs = shape(r, n)
        if prog in ("netcarto", "netcarto_legacy") and all(i == j for i, j in pairs):
            pairs.append((0, 1))
        files["net.dat"] = text_of(r, pairs, cli.labels(r, n))
        if prog in ("multinetlayout", "netcompare"):
            m = max(1, n // 2)
            files["net2.dat"] = text_of(r, shape(r, m), cli.labels(r, m))
    elif prog in WEIGHTED:
        n = min(n, 14)
        files["net.dat"] = text_of(r, shape(r, n), cli.labels(r, n), lambda: str(r.randrange(3)))
    elif prog in RATINGS:
        n = min(n, 14)
        m = r.choice([1, 2, 3, 8])
        l1, l2 = cli.labels(r, n), cli.labels(r, m)
        if prog != "conflict" or r.random() < .5:
            l2 = ["m" + x for x in l2]
        obs = [(i, t) for i in range(n) for t in range(m) if r.random() < r.choice([.3, 1])] or [(0, 0)]
        files["net.dat"] = "".join("%s %s %d\n" % (l1[i], l2[t], r.randrange(2 if prog in ("multi_recommend_2", "conflict") else 3)) for i, t in obs)
        q = ["%s %s" % (r.choice(l1 + ["new"]), r.choice(l2 + ["neu"])) for _ in range(r.choice([0, 1, 2, 6, 40]))]
        files["net2.dat"] = "".join(x + "\n" for x in q)
    elif prog in BIPPART:
        l1, l2, e, order = bip_net(r)
        files["net.dat"] = "".join("%s %s %s\n" % (l1[i], l2[t], cli.fw(e[(i, t)])) for i, t in order)
        args = args_of(r, prog)
        u = list(dict.fromkeys(l2[t] if args[2] == "1" else l1[i] for i, t in order))
        files["net2.dat"] = "".join(x + r.choice([" ", "\n", "\n///\n"]) for x in u) + "\n"
    elif prog == "mutualinfo":
        for f in ("net.dat", "net2.dat"):
            x = cli.labels(r, n)
            files[f] = "".join(y + r.choice([" ", "\n", "\n///\n"]) for y in x)
    args = args if prog in BIPPART else args_of(r, prog)
    if prog == "modularbipart":
        nm, ms = r.choice([1, 2, 5]), r.choice([1, 2, 9])
        args = [str(x) for x in (nm, ms, r.choice([0, 1, 30]), r.randint(0, nm * ms), r.choice(["0", "0.5", "1"]), r.randrange(99))]
    return files, args, n


def valid(c, exe, r, prog):
    files, args, n = valid_input(r, prog)
    c.input(prog + " " + " ".join(args) + repr(sorted(files.items())), n > 2)
    cli.run(c, prog, exe, args, files, cpu=150)
    c.count("monitor.valid_runs")


def reject(c, exe, r, prog):
    """input that no program can use: nonzero status and a message"""
    kind = r.choice(["few-arguments", "missing-file", "missing-field", "missing-field", "long-label", "missing-second", "bad-number"])
    files = {"net.dat": "a b 1\nb c 1\nc d 0\n", "net2.dat": "a b\nc d\n"}
    if prog in BIPPART:
        files["net2.dat"] = "a b c\n"
    if prog == "mutualinfo":
        files = {"net.dat": "a b\n///\nc d\n", "net2.dat": "a b\n///\nc d\n"}
    args = args_of(r, prog)
    stdin = None
    if kind == "few-arguments":
        if prog == "netcarto_legacy" or prog == "netcarto":
            args, stdin = ["-f", "nowhere/net.dat"], ""
        elif prog == "multinetlayout":
            args = args[:r.randrange(2)]
        else:
            args = args[:r.randrange(len(args))] if prog != "modularbipart" else ["2", "2", "5", "2", "1"][:r.randrange(6)]
    elif prog == "modularbipart":
        args = r.choice([["1", "2", "3", "4", "0.5", "1"], ["0", "2", "3", "1", "0.5", "1"], ["2", "0", "3", "1", "0.5", "1"], ["2", "2", "-3", "1", "0.5", "1"],
                         ["2", "2", "3", "-1", "0.5", "1"], ["-2", "-2", "3", "1", "0.5", "1"], ["2", "2", "3", "5", "1", "1"], ["x", "2", "2", "2", "1", "1"]])
        kind = "impossible-teams"
    elif kind == "missing-file":
        files.pop("net.dat")
    elif kind == "missing-second" and "net2.dat" in args:
        files.pop("net2.dat")
    elif kind == "bad-number" and prog in WEIGHTED + ["multi_recommend_k", "multi_recommend_k_gibbs"]:
        args[0] = r.choice(["0", "-1", "-1000000", "x", ""])
    elif kind == "long-label":
        L = "l" * r.choice([100, 101, 102, 128, 200, 999, 1000, 1001, 5000, 70000])
        second = r.random() < .5 and "net2.dat" in args
        if second and prog not in RATINGS:
            files["net2.dat"] = r.choice(["%s a\n", "a %s\n", "a b\nb %s\n"]) % L
        elif second:
            files["net2.dat"] = r.choice(["%s a\n", "a %s\n", "a b\nb %s\n", "a b\n%s b\n"]) % L
        else:
            files["net.dat"] = r.choice(["%s a 1\n", "a %s 1\n", "a b 1\nb %s 1\n", "a b 1\n%s c 0\n"]) % L
            if prog == "mutualinfo":
                files["net.dat"] = "a b\n%s\n" % L
    else:
        if prog == "mutualinfo":
            files.pop("net.dat")
            kind = "missing-file"
        elif prog in RATINGS and prog != "conflict" and r.random() < .4:
            files["net2.dat"] = r.choice(["a\n", "a b\nc\n", "a b\n\n\n\n", "   \n", "a b\nc d\ne"])
            kind = "bad-query"
        else:
            three = prog in WEIGHTED + RATINGS + ["bipartitemodularity_w"]
            files["net.dat"] = r.choice(["a\n", "a b 1\nc\n", "a b 1\n\nb c 1\n", "  \n", "a b 1\nc", "a b 1\n \t\nb a 1\n"] + (["a b\n", "a b 1\nb c\n", "a b x\n", "a b -\n"] if three else []))
            kind = "missing-field"
    tag = kind
    c.input("reject " + prog + " " + " ".join(args) + repr(sorted(files.items()))[:5000], False)
    o = cli.run(c, prog, exe, args, files, stdin, cpu=20, expect_ok=None, tag=tag)
    if not o.bad:
        cli.check(c, bool(o.out.strip() or o.err.strip()), "silent:%s:%s" % (prog, tag), "rejected without a message", exe, args, files, stdin)
    c.count("monitor.rejections")


def noise(r):
    def tok():
        return r.choice(["a", "b", "c", "d", "0", "1", "2", "-1", "///", "x" * 99, "x" * 98, "%s%n", "nan", "inf", "1e308", "-5", "0.5", "99999999999", "\xff\xfe", "#", "é", "*"])
    k = r.randrange(6)
    if k == 0:
        return ""
    if k == 1:
        return bytes(r.randrange(256) for _ in range(r.randrange(1, 300)))
    if k == 2:
        return "".join(" ".join(tok() for _ in range(r.choice([2, 2, 3, 3, 1, 4]))) + r.choice(["\n", "\r\n", "\n\n", ""]) for _ in range(r.randrange(1, 9)))
    if k == 3:
        return "".join(" ".join([tok(), tok(), r.choice(["1", "0", "2", "-1", "7", "1e9", "0.5", "-0.5", "nan", "1e-300"])]) + "\n" for _ in range(r.randrange(1, 9)))
    if k == 4:
        t = bytearray(b"a b 1\nb c 0\nc d 2\nd a 1\n")
        for _ in range(r.randrange(1, 5)):
            t[r.randrange(len(t))] = r.randrange(256)
        return bytes(t)
    return "a b 1\n" * r.choice([1, 500]) + "a" * r.choice([99, 1000, 100000])


def malformed(c, exe, r, prog):
    """input of any kind: no memory error, no hang; any status"""
    files = {"net.dat": noise(r), "net2.dat": noise(r)}
    if r.random() < .6:
        files["net2.dat" if r.random() < .5 else "net.dat"] = "a b 1\nb c 1\nc a 0\n"
    if prog == "modularbipart":
        return reject(c, exe, r, prog)
    if r.random() < .1:
        files["net.dat"] = r.choice(["", "a a 1\n", "a a 0\nb b 1\n"])
    args = args_of(r, prog)
    if prog == "netcarto":
        args += r.choice([[], ["-b"], ["-w"], ["-b", "-w"], ["-p", "net2.dat"], ["-b", "-p", "net2.dat"], ["-b", "-t"]])
    if prog in ("netrandomize", "netlayout", "reliability_links") and r.random() < .2:
        args[1] = r.choice(["", "-1", "x", "99999999999999"])
    c.input("any " + prog + " " + " ".join(args) + repr(sorted(files.items()))[:3000], True)
    cli.run(c, prog, exe, args, files, "" if r.random() < .3 else None, cpu=60, expect_ok=False)
    c.count("monitor.malformed_inputs")


CORNERS = [("", ""), ("a a 1\n", "a a\n"), ("a b 1\n", "a b\n"), ("a b 1\nb a 1\na b 1\na a 1\n", "b a\na b\n"), ("a a 1\nb b 1\nc c 0\n", ""), ("a b 1\nc d 0\n", "b c\na a\nd d\n")]


def corner(c, exe, prog, k):
    a, b = CORNERS[k]
    files = {"net.dat": a, "net2.dat": b}
    r = random.Random("corner%d" % k)
    args = args_of(r, prog)
    if prog == "modularbipart":
        args = [["1", "1", "1", "1", "1", "1"], ["1", "1", "0", "0", "0", "1"], ["2", "1", "3", "2", "1", "1"], ["1", "2", "3", "2", "0", "1"], ["3", "2", "1", "0", "1", "1"], ["2", "2", "2", "4", "0.5", "0"]][k]
    c.input("corner " + prog + " ".join(args) + repr(files), False)
    cli.run(c, prog, exe, args, files, cpu=60, expect_ok=prog == "modularbipart" or (prog in NETPROGS and k in (2, 5)))
    c.count("monitor.corner_inputs")


@prop("P33")
def p33(c):
    c.rule = ("all 28 programs under ASan+UBSan: valid files of 9 shapes (1 node to 1200), two-mode, rating and partition files with status zero expected; unusable files and arguments "
              "(absent, missing fields, labels of 100-70000 characters, unreadable queries, impossible numbers) with a nonzero status and a message expected; arbitrary bytes, mutated files, "
              "extreme numbers and empty files without crash or hang; non-trivial: more than 2 nodes, or arbitrary input")
    exe = build.cli(ALL, "san")
    N = 36 * len(ALL) * (10 if c.tier == "thorough" else 1)

    def one(k):
        r = random.Random("P33-%d-%d" % (c.seed, k))
        prog = ALL[k % len(ALL)]
        (valid, reject, malformed)[(k // len(ALL)) % 3](c, exe[prog], r, prog)
    cli.pmap(one, N, 7)
    cli.pmap(lambda k: corner(c, exe[ALL[k // len(CORNERS)]], ALL[k // len(CORNERS)], k % len(CORNERS)), len(ALL) * len(CORNERS), 7)
