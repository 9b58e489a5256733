#!/usr/bin/env python3
"""Runs the check of one property:  run.py <property id> [quick|thorough]

Builds the explorers of the property from /repo's current working tree, runs them, writes
evidence/<id>.json, prints KNOWN-FINDING / VIOLATION lines.
Exit status: 0 held on everything explored, 1 violation, 2 the check itself failed.
"""
import hashlib, json, os, shlex, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

CXX = "/usr/bin/clang++-18"
# automatic variables (and new memory, see mc.h) have contents which are unlikely to be right
BASE_FLAGS = ["-std=c++14", "-g0", "-w", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"]


def tree_files(root):
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            yield os.path.join(d, f)


def mirror(dst):
    """The include tree which the project's build makes, from the sources in REPO."""
    inc = os.path.join(dst, "include", "humoto")
    if os.path.isdir(os.path.join(dst, "include")):
        shutil.rmtree(os.path.join(dst, "include"))
    os.makedirs(inc)

    def copy(src):
        src = os.path.join(REPO, src)
        if not os.path.isdir(src):
            return
        for f in tree_files(src):
            if not f.endswith((".h", ".hpp", ".in")):
                continue
            t = os.path.join(inc, os.path.relpath(f, src))
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copyfile(f, t)
    copy("core/include")
    for m in sorted(os.listdir(os.path.join(REPO, "modules"))):
        copy("modules/%s/include" % m)
    for b in ("config_msgpack", "qpOASES", "QuadProgpp", "qpmad", "config_yaml", "rbdl"):
        copy("bridges/%s/interface" % b)
    copy("bridges/obstacle_avoidance")
    shutil.copyfile(os.path.join(VERIF, "harness", "build_config.h"), os.path.join(inc, "build_config.h"))
    return os.path.join(dst, "include")


def digest(paths, extra):
    h = hashlib.sha256()
    h.update(repr(extra).encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def known_keys(prop):
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                f = line[len("known: "):].split(None, 2)
                if f[0] == "property=" + prop and f[1].startswith("key="):
                    out[f[1][4:]] = f[2] if len(f) > 2 else ""
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    thorough = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[prop]
    t0 = time.time()
    work = os.path.join(VERIF, "build", prop)
    os.makedirs(work, exist_ok=True)
    inc = mirror(work)

    # ---- build every explorer of this property, in parallel
    builds = []
    for ex in spec["explorers"]:
        src = os.path.join(VERIF, "harness", ex["src"])
        opt = ex.get("opt", ["-O1"])
        pre = []
        for d in ex.get("include_first", []):
            pre += ["-I", os.path.join(VERIF, "harness", d)]
        cmd = [CXX] + BASE_FLAGS + opt + ex.get("defs", []) + pre + \
            ["-I", inc, "-I", os.path.join(inc, "humoto"), "-I", os.path.join(VERIF, "harness"),
             "-isystem", "/usr/include/eigen3", src]
        exe = os.path.join(work, ex["name"])
        cmd += ["-o", exe] + ex.get("libs", [])
        if "runtime" in ex:
            # the explorer is instrumented, its runtime is not
            obj, rt = exe + ".o", exe + ".rt.o"
            one = cmd[:cmd.index("-o")] + ex["instrument"] + ["-c", "-o", obj]
            two = [CXX] + BASE_FLAGS + opt + ["-c", os.path.join(VERIF, "harness", ex["runtime"]), "-o", rt]
            link = [CXX, obj, rt, "-o", exe] + ex.get("libs", [])
            cmd = ["sh", "-c", " && ".join(shlex.join(x) for x in (one, two, link))]
        hfiles = [f for f in tree_files(os.path.join(VERIF, "harness")) if f.endswith((".h", ".hpp", ".hh")) or f == src or f.endswith(ex.get("runtime", "//"))]
        key = digest(list(tree_files(inc)) + hfiles, cmd)
        stamp = exe + ".key"
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
            continue
        if os.path.exists(stamp):
            os.unlink(stamp)
        log = open(exe + ".log", "w")
        builds.append((ex, exe, stamp, key, subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, cwd=work)))
    failed = False
    for ex, exe, stamp, key, p in builds:
        if p.wait() != 0:
            failed = True
            sys.stderr.write("check error: %s does not build:\n%s\n" % (ex["src"], open(exe + ".log").read()[:6000]))
        else:
            with open(stamp, "w") as f:
                f.write(key)
    if failed:
        return 2
    t_build = time.time() - t0

    # ---- run
    known = known_keys(prop)
    known_file = os.path.join(work, "known.txt")
    with open(known_file, "w") as f:
        for k in known:
            f.write(k + "\n")
    tot = {"executions": 0, "transitions": 0, "states": 0, "checks": 0, "pruned": 0}
    scen, samples, fails = {}, [], []
    for ex in spec["explorers"]:
        out = os.path.join(work, "out-" + ex["name"])
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(out)
        jobs = os.environ.get("MC_JOBS", str(os.cpu_count() or 4))
        env = dict(os.environ)
        env["MC_SCRATCH"] = out
        r = subprocess.run([os.path.join(work, ex["name"]), out, jobs, "1" if thorough else "0", known_file],
                           cwd=out, env=env)
        if r.returncode != 0:
            sys.stderr.write("check error: explorer %s ended with %s\n" % (ex["name"], r.returncode))
            return 2
        res = json.load(open(os.path.join(out, "result.json")))
        for k in tot:
            tot[k] += res[k]
        scen.update(res["scenarios"])
        samples += res["samples"]
        fails += res["failures"]
        for f in os.listdir(out):
            if f.endswith(".st"):
                os.unlink(os.path.join(out, f))

    if tot["executions"] == 0 and not fails:
        sys.stderr.write("check error: nothing was explored\n")
        return 2
    new = [f for f in fails if not f["known"]]
    old = [f for f in fails if f["known"]]
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "states": tot["states"], "transitions": tot["transitions"],
            "traces_validated_against_impl": tot["executions"],
            "assertions_evaluated": tot["checks"],
            "pruned_combinations": tot["pruned"],
            "exhaustive": not new,
            "bounds": spec["bounds"].get(tier, spec["bounds"]["quick"]) if isinstance(spec["bounds"], dict) else spec["bounds"],
            "binding": "every explored path is executed on the real code compiled from /repo and compared with the reference model step by step",
            "scenarios": scen,
            "samples": samples[:8],
        },
        "wall_s": round(wall, 2), "build_s": round(t_build, 2),
        "violations": len(new),
        "known_findings": [f["key"] for f in old],
        "assumptions": spec["assumptions"],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for f in old:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, f["key"], known[f["key"]]))
    for f in new:
        print("violated: %s: %s" % (f["key"], f["msg"][:1200]))
    for f in new:
        print("VIOLATION property=%s replay=%s" % (prop, f["replay"]))
    print("%s %s: %d states, %d transitions, %d paths, %d assertions, %.1f s (build %.1f s), %d violations" % (
        prop, tier, tot["states"], tot["transitions"], tot["executions"], tot["checks"], wall, t_build, len(new)))
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
