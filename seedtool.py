#!/usr/bin/env python3
"""Helper for planted bugs (development only; no check uses it).
  seedtool.py new ID PROP FILE         reads OLD/NEW blocks from stdin, makes seeded/ID/patch.diff
  seedtool.py validate ID [--check]    applies it to /repo, builds, tests, runs the demo with and without, runs the check
"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    cmd, sid = sys.argv[1:3]
    d = os.path.join(V, "seeded", sid)
    if cmd == "new":
        prop, f = sys.argv[3:5]
        text = sys.stdin.read()
        old, rest = text.split("\n=====\n", 1)
        new, needs, breaks = rest.split("\n-----\n")
        p = os.path.join("/repo", f)
        s = open(p).read()
        assert s.count(old) == 1, "occurrences: %d" % s.count(old)
        open(p, "w").write(s.replace(old, new))
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
        sh("git -C /repo checkout -- .")
        json.dump({"property": prop, "needs": needs.strip(), "what_it_breaks": breaks.strip()}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("made", d)
    if cmd == "validate":
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        full = "--full" in sys.argv
        assert sh("git -C /repo status --porcelain --untracked-files=no").stdout.strip() == ""
        if full: print("clean demo:", end=" ", flush=True)
        r = sh("bash %s/demo.sh" % d, cwd="/repo"); print("demo clean rc", r.returncode, r.stdout[-300:] if r.returncode else "")
        a = sh("git -C /repo apply %s/patch.diff" % d); assert a.returncode == 0, a.stdout
        try:
            b = sh("bash /opt/vp/build.sh"); print("build rc", b.returncode)
            if full:
                t = sh("bash /opt/vp/test.sh /tmp/w/t.json"); print("test rc", t.returncode, t.stdout[-200:])
            r = sh("bash %s/demo.sh" % d, cwd="/repo"); print("demo bug rc", r.returncode, r.stdout[-300:])
            c = sh("python3 run.py %s quick" % prop, cwd=V); print("check rc", c.returncode, c.stdout[-400:])
        finally:
            sh("git -C /repo checkout -- ."); 
            sh("bash /opt/vp/build.sh")
main()
