"""Runs harness cases in parallel, turns crashes, hangs and oracle failures into keyed violations, writes evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, resource
from concurrent.futures import ThreadPoolExecutor
from . import build

VERIF = build.VERIF
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:hard_rss_limit_mb=4000:"
                    "max_allocation_size_mb=2000:malloc_context_size=12:handle_abort=1:detect_stack_use_after_return=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99:halt_on_error=1",
}


def known_findings():
    """[(property, key-or-regex, text)] from the committed list; entries 'fixed:' suppress nothing"""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out.append(m.groups())
    return out


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.viol = {}            # key -> {msg, replay}
        self.counters = {}
        self.samples = []
        self.inputs = set()
        self.nontrivial = set()
        self.evaluations = 0
        self.notes = []
        self.inconclusive = 0
        self.rule = ""
        self.scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        self.assumptions = []
        self.stop = False          # set once a crash or hang is confirmed: no need to collect more of them

    # ---- recording
    def violation(self, key, msg, replay):
        key = re.sub(r"[^A-Za-z0-9_:.+\-]", "_", key)
        if key not in self.viol:
            self.viol[key] = {"msg": msg, "replay": replay, "n": 1}
        else:
            self.viol[key]["n"] += 1

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def input(self, desc, nontrivial=True):
        if self.spent():
            return
        h = hashlib.sha1(desc.encode()).hexdigest()[:16]
        self.inputs.add(h)
        if nontrivial:
            self.nontrivial.add(h)
            if len(self.samples) < 3:
                self.samples.append(desc[:700])

    def is_known(self, key):
        return any(p == self.prop and re.fullmatch(pat, key) for (p, pat, t) in known_findings())

    def enough(self):
        """a violation is established and has had time to show its other faces: nothing more needs to be run"""
        limit = float(os.environ.get("VERIF_ENOUGH", "120"))
        return self.stop or time.time() - self.t0 > limit and any(not self.is_known(k) for k in list(self.viol))

    def spent(self):
        """the time of this run is used up: what is left is not started, and the evidence says how much was left"""
        return time.time() - self.t0 > float(os.environ.get("VERIF_BUDGET", "660"))

    # ---- C++ harnesses
    def harness(self, name, flavour="san", defs=(), chunk=None, cpu=10, ncases=None, env=None):
        exe = build.harness(name, flavour, defs)
        n = ncases
        if n is None:
            n = int(subprocess.run([exe, "--tier", self.tier, "--out", "count"], stdout=subprocess.PIPE, text=True, check=True).stdout)
        if not chunk:
            chunk = max(1, min(200, -(-n // ((16 if self.tier == "thorough" else 4) * build.JOBS))))
        ranges = [(a, min(n, a + chunk)) for a in range(0, n, chunk)]
        least = ranges[build.JOBS][0] if len(ranges) > build.JOBS else n      # every harness gets to observe something

        def shard(rg):
            if self.enough():
                return 0
            if rg[0] >= least and self.spent():
                self.count("monitor.cases_left_for_lack_of_time", rg[1] - rg[0])
                return 0
            return self._shard(exe, name, rg[0], rg[1], cpu, env or {})
        with ThreadPoolExecutor(build.JOBS) as ex:
            done = list(ex.map(shard, ranges))
        got = sum(done)
        if got == 0 and not self.enough():
            raise RuntimeError("harness %s observed nothing" % name)
        return got

    def _run(self, exe, a, b, cpu, env, out, keep_err=False):
        e = dict(os.environ, **SAN_ENV, **env)
        log = out + ".san"
        e["ASAN_OPTIONS"] += ":log_path=" + log
        e["TMPDIR"] = self.scratch
        wall = 60 + (b - a) * cpu * 3
        try:
            p = subprocess.run([exe, "--seed", str(self.seed), "--tier", self.tier, "--from", str(a), "--to", str(b),
                                "--cpu", str(cpu), "--out", out, *(["--err", out + ".san.err"] if keep_err else [])], env=e, stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=min(wall, 800), cwd=self.scratch)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = "wall"
        lines = open(out, errors="replace").read().split("\n") if os.path.exists(out) else []
        san = ""
        for f in os.listdir(self.scratch):
            if f.startswith(os.path.basename(log)):
                with open(os.path.join(self.scratch, f), errors="replace") as fh:
                    t = fh.read(2000000)
                    k = max(t.find("AddressSanitizer"), t.find("runtime error:"))
                    san += t[max(0, k - 200):][:20000]
                os.unlink(os.path.join(self.scratch, f))
        if os.path.exists(out):
            os.unlink(out)
        return rc, lines, san

    def _absorb(self, name, exe, lines, counted=True):
        """takes in what a run reported; returns (last case started, stage, ended, timed_out)"""
        last, stage, ended, tout = None, "", False, False
        for ln in lines:
            if ln.startswith("C "):
                last, stage = int(ln[2:]), ""
                if counted:
                    self.evaluations += 1
            elif ln.startswith("G "):
                stage = ln[2:]
            elif ln.startswith("H "):
                _, h, nt = ln.split(" ")[:3]
                self.inputs.add(name + h)
                if nt == "1":
                    self.nontrivial.add(name + h)
            elif ln.startswith("E ") and len(self.samples) < 4:
                self.samples.append(ln[2:])
            elif ln.startswith("K "):
                _, k, v = ln.split(" ")
                self.count(k, float(v))
            elif ln.startswith("V "):
                key, _, msg = ln[2:].partition(" | ")
                self.violation(key.strip(), msg, {"harness": name, "exe": os.path.basename(exe), "case": last,
                                                  "seed": self.seed, "tier": self.tier})
            elif ln.startswith("T "):
                tout = True
            elif ln == "END":
                ended = True
        return last, stage, ended, tout

    def _shard(self, exe, name, a, b, cpu, env):
        started, tries = 0, 0
        while a < b and tries < 6 and not (self.stop and tries):
            out = os.path.join(self.scratch, "r-%s-%d-%d" % (name, a, tries))
            rc, lines, san = self._run(exe, a, b, cpu, env, out)
            last, stage, ended, tout = self._absorb(name, exe, lines)
            started += sum(1 for ln in lines if ln.startswith("C "))
            if ended and rc == 0:
                return started
            tries += 1
            if last is None:
                self.inconclusive += 1
                self.notes.append("harness %s range %d-%d started nothing (rc %s) %s" % (name, a, b, rc, san[:300]))
                continue
            if self.stop and tries > 1:
                return started
            # confirm by running that case alone, with more time
            out = os.path.join(self.scratch, "c-%s-%d-%d" % (name, last, tries))
            rc2, lines2, san2 = self._run(exe, last, last + 1, cpu * 4, env, out, True)
            l2, stage2, ended2, tout2 = self._absorb(name, exe, lines2, counted=False)
            rep = {"harness": name, "exe": os.path.basename(exe), "case": last, "seed": self.seed, "tier": self.tier}
            if ended2 and rc2 == 0:
                if not tout:
                    # only fails after the cases before it: still a real report of the first run
                    k, msg = crash_key(rc, san or "", stage)
                    rep["from"] = a
                    if rc == "wall" or rc in (-9, "timeout"):
                        self.inconclusive += 1
                    else:
                        self.violation(k, msg, rep)
                else:
                    self.inconclusive += 1
            elif tout2 or rc2 == 97:
                self.stop = self.stop or not self.is_known("hang:" + (stage2 or stage or "case"))
                self.violation("hang:" + (stage2 or stage or "case"), "does not finish within %d s of CPU time" % (cpu * 4), rep)
            elif rc2 == "wall" or rc2 == -9:
                self.inconclusive += 1
                self.notes.append("case %s of %s: wall limit or killed" % (last, name))
            else:
                k, msg = crash_key(rc2, san2, stage2 or stage)
                self.violation(k, msg, rep)
            a = last + 1
        return started

    # ---- finishing
    def finish(self, level="exploration"):
        kn = known_findings()
        new, old = {}, {}
        for k, v in self.viol.items():
            hit = [t for (p, pat, t) in kn if p == self.prop and re.fullmatch(pat, k)]
            (old if hit else new)[k] = (v, hit[0] if hit else "")
        bad = []
        rdir = os.path.join(VERIF, "build", "replays")
        os.makedirs(rdir, exist_ok=True)
        for k, (v, _) in sorted(new.items()):
            path = os.path.join(rdir, "%s-%s.json" % (self.prop, hashlib.sha1(k.encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "key": k, "message": v["msg"], "occurrences": v["n"], **v["replay"]}, f, indent=1)
            bad.append((k, v, path))
        for k, (v, text) in sorted(old.items()):
            print("KNOWN-FINDING: property=%s key=%s %s" % (self.prop, k, text))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {
                "evaluations": self.evaluations, "distinct_nontrivial": len(self.nontrivial),
                "distinct_inputs": len(self.inputs), "rule": self.rule, "samples": self.samples,
                "observed": {k: (int(v) if float(v).is_integer() else v) for k, v in sorted(self.counters.items())},
                "inconclusive": self.inconclusive,
            },
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(bad),
        }
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        edir = os.path.join(VERIF, "evidence")
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        for n in self.notes[:5]:
            print("note:", n)
        for k, v, path in bad:
            print("  key=%s (%d times) %s" % (k, v["n"], v["msg"][:300]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("%s %s: %d evaluations, %d distinct non-trivial, %d oracle checks, %d inconclusive, %d violations, %.1f s" % (
            self.prop, self.tier, self.evaluations, len(self.nontrivial), self.counters.get("oracle.checks", 0),
            self.inconclusive, len(bad), time.time() - self.t0))
        if bad:
            return 1
        if self.evaluations == 0 or not self.nontrivial or self.counters.get("oracle.checks", 0) == 0:
            print("error: the run observed nothing")
            return 2
        if self.inconclusive > max(3, self.evaluations // 10):
            print("error: too many inconclusive cases")
            return 2
        return 0


def crash_key(rc, san, stage):
    where = ""
    m = re.search(r"AddressSanitizer: ([A-Za-z\-]+)", san)
    kind = "asan:" + m.group(1) if m else ""
    if not kind:
        m = re.search(r"runtime error: ([^\n]{1,120})", san)
        if m:
            kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?", "N", m.group(1))[:60]
    for fm in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\S+) ([^\s:]+)", san):
        if build.REPO in fm.group(2):
            where = fm.group(1)
            break
    if not kind:
        kind = "crash:signal%s" % (-rc) if isinstance(rc, int) and rc < 0 else "crash:exit%s" % rc
    key = kind + (":" + where if where else "") + ("@" + stage if stage else "")
    msg = (re.sub(r"\s+", " ", san)[:600] if san else "process ended with status %s" % rc) + " (stage %s)" % stage
    return key.replace(" ", "_"), msg
