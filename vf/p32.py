"""Determinism: runs that differ only in what memory contains give byte-identical results; memcheck sees no decision on an
undefined value."""
import random
from . import build, cli
from .props import prop
from .p33 import ALL, NETPROGS, valid_input

VALGRIND = ["valgrind", "-q", "--error-exitcode=98", "--leak-check=no", "--undef-value-errors=yes", "--exit-on-first-error=yes", "--log-file=.vg.log"]
# the samplers' programs fill a table of 50 million logarithms at every start: too slow under memcheck (the harness covers those functions)
SLOW = {"reliability_links", "reliability_links_gibbs", "reliability_links_gibbs_sparse", "reliability_reconstruct", "reliability_links_mb", "reliability_links_mb_OR",
        "reliability_links_mb_gibbs", "reliability_links_mb_gibbs_OR", "only_degeneration_mb", "only_degeneration_mb_gibbs"}


def first_diff(a, b):
    for x, y in zip(a.split("\n"), b.split("\n")):
        if x != y:
            return "%r / %r" % (x[:120], y[:120])
    return "%d / %d bytes" % (len(a), len(b))


def same_output(c, exes, r, prog):
    files, args, n = valid_input(r, prog)
    c.input(prog + " " + " ".join(args) + repr(sorted(files.items())), n > 2)
    big = {"VF_PAD_%d" % k: "x" * r.randrange(1, 4000) for k in range(r.randrange(1, 9))}
    runs = [("zero", {"MALLOC_PERTURB_": "0"}), ("pattern", {"MALLOC_PERTURB_": str(r.randrange(1, 256)), **big}),
            ("plain", {"MALLOC_PERTURB_": str(r.randrange(1, 256)), "MALLOC_TOP_PAD_": str(r.randrange(1 << 20)), "MALLOC_ARENA_MAX": "1", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"})]
    res = [cli.run(c, prog, exes[fl][prog], args, files, cpu=90, want="all", env=e) for fl, e in runs]
    if any(o.bad for o in res):
        return
    a = res[0]
    for (fl, e), o in zip(runs[1:], res[1:]):
        c.count("monitor.compared_runs")
        cli.check(c, o.out == a.out, "stdout:" + prog, lambda: "two runs on the same input print different results: " + first_diff(a.out, o.out), exes[fl][prog], args, files)
        cli.check(c, set(o.files) == set(a.files), "files:" + prog, lambda: "two runs write different files: %s / %s" % (sorted(a.files), sorted(o.files)), exes[fl][prog], args, files)
        for f in set(o.files) & set(a.files):
            c.count("monitor.compared_files")
            cli.check(c, o.files[f] == a.files[f], "file:" + prog, lambda: "two runs write different %s: %s" % (f, first_diff(a.files[f], o.files[f])), exes[fl][prog], args, files)


def memcheck(c, exe, r, prog):
    for _ in range(50):
        files, args, n = valid_input(r, prog)
        if n <= 20 and sum(len(x) for x in files.values()) < 6000:
            break
    c.input("memcheck " + prog + " " + " ".join(args) + repr(sorted(files.items())), n > 2)
    o = cli.run(c, prog, "valgrind", VALGRIND[1:] + [exe] + args, files, cpu=100, want=(".vg.log",), expect_ok=False)
    if o.bad:
        return
    c.count("monitor.memcheck_runs")
    log = o.files.get(".vg.log", "")
    if o.rc == 98:
        at = [l.split("==")[-1].strip() for l in log.split("\n")]
        fn = [l.split(":")[1].split("(")[0].strip() for l in at if l.startswith(("at 0x", "by 0x")) and ".c:" in l]
        cli.fail(c, "memcheck:%s" % (fn[0] if fn else prog), "%s on valid input: %s" % (prog, " | ".join(at[:6])[:500]), "valgrind", VALGRIND[1:] + [exe] + args, files)
    else:
        cli.check(c, o.rc == 0, "memcheck-status:" + prog, lambda: "exit status %s under memcheck: %s" % (o.rc, (o.out[-200:] + o.err[-200:] + log[-200:])), "valgrind", VALGRIND[1:] + [exe] + args, files)


@prop("P32")
def p32(c):
    c.rule = ("valid inputs of all 28 programs, each run three times with zero-, pattern- and un-initialised locals, different fill of fresh and freed heap memory, heap layout and environment; "
              "output and files compared byte for byte; programs with cheap start-up also under memcheck; harness: each operation repeated in one process after unrelated work; non-trivial: more than 2 nodes")
    exes = {f: build.cli(ALL, f) for f in ("zero", "pattern", "plain")}
    val = build.cli([p for p in ALL if p not in SLOW], "val")
    t = 10 if c.tier == "thorough" else 1
    N = 9 * len(ALL) * t

    def one(k):
        same_output(c, exes, random.Random("P32-%d-%d" % (c.seed, k)), ALL[k % len(ALL)])
    cli.pmap(one, N, 8)
    V = sorted(val)

    def vg(k):
        memcheck(c, val[V[k % len(V)]], random.Random("P32v-%d-%d" % (c.seed, k)), V[k % len(V)])
    cli.pmap(vg, 3 * len(V) * t, 8)
    c.harness("p32", "plain", cpu=20)
    exe = build.harness("p32", "val", ["-DMEMCHECK"])

    def hv(k):
        a = 26 * k
        args = VALGRIND[1:] + [exe, "--seed", str(c.seed), "--from", str(a), "--to", str(a + 26), "--out", "report", "--cpu", "150"]
        o = cli.run(c, "p32-harness", "valgrind", args, {}, cpu=200, want=(".vg.log", "report"), expect_ok=False)
        if o.bad:
            return
        rep = o.files.get("report", "").split("\n")
        c.count("monitor.memcheck_operations", sum(x.startswith("C ") for x in rep))
        stage = ([""] + [x[2:] for x in rep if x.startswith("G ")])[-1]
        log = [l.split("==")[-1].strip() for l in o.files.get(".vg.log", "").split("\n")]
        if o.rc == 98:
            fn = [l.split(":")[1].split("(")[0].strip() for l in log if l.startswith(("at 0x", "by 0x")) and ".c:" in l]
            cli.fail(c, "memcheck:%s@%s" % (fn[0] if fn else "?", stage), " | ".join(log[:7])[:600], "valgrind", args)
        elif any(x == "END" for x in rep):
            cli.check(c, o.rc == 0, "memcheck-harness:" + stage, "status %s" % o.rc)
        elif any(x.startswith("T ") for x in rep):
            c.inconclusive += 1
        else:
            cli.fail(c, "memcheck-crash@" + stage, "status %s %s" % (o.rc, " | ".join(log[:7])[:400]), "valgrind", args)
    cli.pmap(hv, 16 * t, 8)
