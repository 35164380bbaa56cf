#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--replay file] [--only space]

Builds the library from /repo's working tree together with checks/<property>.cc, explores,
writes evidence/<property>.json.  Exit 0: held on everything explored.  Exit 1 and a VIOLATION
line: broken.  Exit 2: the check itself could not run."""
import argparse, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "mc"))
import build as B

# extra compile/link settings of single checks
SPECIAL = {}
try:
    import special
    SPECIAL = special.SPECIAL
except ImportError:
    pass


def driver(p):
    return os.path.join(VERIF, "checks", p + ".cc")


HANG = 1000
UNPREPARED = {77: "a sanitizer report", -6: "abort", -11: "segmentation fault", -8: "arithmetic fault", -4: "illegal instruction", -7: "bus error", HANG: "no end within 120 s"}


def drive(cmd, env, tmp):
    """Run the driver; the time until it starts to explore is limited."""
    p = subprocess.Popen(cmd, env=env, cwd=tmp + "/scratch")
    t0 = time.time()
    while True:
        try:
            return p.wait(0.2 if time.time() - t0 < 120 else None)
        except subprocess.TimeoutExpired:
            if os.path.exists(tmp + "/started"):
                return p.wait()
            if time.time() - t0 > 119:
                p.kill()
                p.wait()
                return HANG


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--cap")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    os.chdir(VERIF)
    if a.prop == "setup":
        t = time.time()
        groups = {}
        for f in sorted(os.listdir("checks")):
            if f.endswith(".cc"):
                sp = SPECIAL.get(f[:-3], {})
                k = (sp.get("mode", "asan"), tuple(sp.get("flags", ())), tuple(sp.get("libs", ())), sp.get("program"))
                groups.setdefault(k, {})[f[:-3]] = driver(f[:-3])
        for (mode, fl, li, pr), d in groups.items():
            B.build(d, mode, fl, li, pr)
        print("setup: %d drivers built in %.0f s" % (sum(map(len, groups.values())), time.time() - t))
        return 0
    sp = SPECIAL.get(a.prop, {})
    t0 = time.time()
    try:
        exe = B.build({a.prop: driver(a.prop)}, sp.get("mode", "asan"), sp.get("flags", ()), sp.get("libs", ()), sp.get("program"))[a.prop]
    except RuntimeError as e:
        print(str(e)[:6000])
        print("check error: /repo does not build")
        return 2
    tb = time.time() - t0
    os.makedirs("evidence", exist_ok=True)
    os.makedirs("replay", exist_ok=True)
    os.makedirs(os.path.join(B.BUILD, "tmp"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=a.prop + ".", dir=os.path.join(B.BUILD, "tmp"))
    os.makedirs(tmp + "/scratch")
    cmd = [exe, "--tier", a.tier, "--out", os.path.join(VERIF, "replay"), "--tmp", tmp,
           "--known", os.path.join(VERIF, "known_findings.txt")]
    if not a.no_evidence and not a.replay and not a.only:
        cmd += ["--evidence", os.path.join(VERIF, "evidence", a.prop + ".json")]
    for o in ("replay", "only", "cap"):
        if getattr(a, o):
            cmd += ["--" + o, os.path.abspath(a.replay) if o == "replay" else getattr(a, o)]
    env = dict(os.environ)
    env.update({"MC_SCRATCH": tmp + "/scratch", "LC_ALL": "C", "TZ": "UTC", "HOME": tmp + "/scratch"})
    for k in list(env):
        if k.startswith(("ASAN_OPTIONS", "UBSAN_OPTIONS", "XML_", "CURL_", "http_proxy", "https_proxy", "ALL_PROXY")):
            del env[k]
    try:
        rc = drive(cmd, env, tmp)
        if rc in UNPREPARED and not os.path.exists(tmp + "/started"):
            # The library fails on the check's own inputs, before the exploration: twice, to be sure
            rc = drive(cmd, env, tmp)
            if rc in UNPREPARED and not os.path.exists(tmp + "/started"):
                path = os.path.join(VERIF, "replay", a.prop + "-preparation.json")
                if not a.replay:
                    with open(path, "w") as f:
                        json.dump({"property": a.prop, "tier": a.tier, "space": "preparation", "choices": [], "alternatives": [], "message": UNPREPARED[rc],
                                   "replay_with": "python3 /verif/run.py %s --replay %s" % (a.prop, path)}, f, indent=1)
                        f.write("\n")
                print("while the inputs are prepared: %s" % UNPREPARED[rc])
                print("VIOLATION property=%s replay=%s" % (a.prop, a.replay or path))
                rc = 1
        if rc not in (0, 1):
            print("check error: driver ended with status %d" % rc)
            rc = 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print("build %.1f s, total %.1f s" % (tb, time.time() - t0))
    return rc


if __name__ == "__main__":
    sys.exit(main())
