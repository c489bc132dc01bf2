#!/usr/bin/env python3
"""check.py P01 [--tier quick|thorough] [--seed N]   decides one property on /repo's working tree
   check.py --replay build/replays/FILE.json        runs one failing case again, with its output shown
   check.py --setup                                 builds the library once (smoke test of the tool chain)"""
import importlib, json, os, sys, subprocess, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import build, core


def main(argv):
    if argv and argv[0] == "--setup":
        for fl in ("san",):
            build.archive(fl)
        print("setup ok")
        return 0
    if argv and argv[0] == "--replay":
        r = json.load(open(argv[1]))
        print(json.dumps(r, indent=1))
        if "exe" in r:
            exe = os.path.join(build.BUILD, "bin", r["exe"])
            if not os.path.exists(exe):
                import vf.props as props
                name, rest = r["exe"].rsplit("-", 2)[0], r["exe"].rsplit("-", 2)[1]
                exe = build.harness(name, rest)
            env = dict(os.environ, **core.SAN_ENV)
            return subprocess.run([exe, "--seed", str(r["seed"]), "--tier", r["tier"], "--from", str(r.get("from", r["case"])),
                                   "--to", str(r["case"] + 1), "--cpu", "200"], env=env).returncode
        if "cmd" in r:
            return subprocess.run(r["cmd"], shell=True).returncode
        return 0
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    for i, a in enumerate(argv):
        if a == "--tier":
            tier = argv[i + 1]
        if a == "--seed":
            seed = int(argv[i + 1])
    import vf.props as props
    c = core.Check(prop, tier, seed)
    try:
        props.PROPS[prop](c)
        rc = c.finish(props.LEVEL.get(prop, "exploration"))
    except build.BuildError as e:
        print("error: build failed:", str(e)[:3000])
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    import shutil
    shutil.rmtree(c.scratch, ignore_errors=True)
    build.prune()
    return rc


sys.exit(main(sys.argv[1:]))
