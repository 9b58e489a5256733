#!/usr/bin/env python3
"""Mutation campaign (development tool, not a check):

    mutate.py gen  FILE...                 list of mutants of headers of /repo -> stdout (JSON lines)
    mutate.py run  LIST OUT [workers]      runs the checks of the properties anchored in the mutated file

Each worker has its own copies of /repo's tree and of /verif below /tmp/mut. A mutant is killed by the first
check which reports a violation; mutants which do not compile are dropped.
"""
import json, os, random, re, shutil, subprocess, sys, threading

VERIF = "/verif"
EXTRA = {  # further checks for files which are used by several properties
    "core/include/humoto/constraints_base.h": ["C02", "C03", "C01", "C04"],
    "core/include/humoto/constraints.h": ["C01", "C02", "C03"],
    "core/include/humoto/constraints_mixins.h": ["C01", "C02", "C03", "C25"],
    "core/include/humoto/hierarchy.h": ["C01", "C02", "C03", "C04", "C07", "C25"],
    "core/include/humoto/task.h": ["C04", "C22", "C25"],
    "core/include/humoto/active_set.h": ["C03", "C04", "C07", "C25"],
    "core/include/humoto/logger.h": ["C24", "C25"],
    "core/include/config.h": ["C23", "C22"],
    "core/include/config/define_accessors.h": ["C23", "C22"],
    "core/include/walking/robot_foot_parameters.h": ["C23", "C18", "C12", "C16"],
    "core/include/walking/stance_finite_state_machine.h": ["C15", "C16", "C25"],
    "modules/wpg04/include/wpg04/common.h": ["C23", "C16", "C17", "C18"],
    "modules/pepper_mpc/include/pepper_mpc/common.h": ["C23", "C21", "C19", "C20"],
    "modules/pepper_mpc/include/pepper_mpc/preview_horizon.h": ["C19", "C20", "C21", "C25"],
    "modules/wpg04/include/wpg04/model.h": ["C17", "C16", "C18", "C25"],
    "modules/wpg04/include/wpg04/mpc_wpg.h": ["C16", "C17", "C18", "C25"],
    "modules/wpg04/include/wpg04/preview_horizon.h": ["C16", "C17", "C18", "C25"],
}


def props_of(path):
    if path in EXTRA:
        return EXTRA[path]
    out = []
    for l in open(os.path.join(VERIF, "properties.jsonl")):
        p = json.loads(l)
        if path in p["anchors"]["files"]:
            out.append(p["id"])
    return [p for p in out if p != "C25"] + (["C25"] if "C25" in out else [])


RULES = [
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r"\+=", ["-="]), (r"-=", ["+="]), (r" < ", [" <= "]), (r" <= ", [" < "]),
    (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\b0\b(?!\.)", ["1"]), (r"\b1\b(?!\.)", ["0", "2"]), (r"\b2\b(?!\.)", ["1", "3"]),
    (r"\b3\b(?!\.)", ["2"]), (r"\b0\.0\b", ["1.0"]), (r"\b1\.0\b", ["2.0"]), (r"(?<=[\w\])])/(?=[\w(])", ["*"]), (r" / ", [" * "]), (r"!(?=[\w(])", [""]),
    (r"\blb\b", ["ub"]), (r"\bub\b", ["lb"]), (r"\blb_\b", ["ub_"]), (r"\bub_\b", ["lb_"]),
    (r"Lower", ["Upper"]), (r"Upper", ["Lower"]), (r"LOWER", ["UPPER"]), (r"UPPER", ["LOWER"]), (r"\bleft_?\b", ["right"]), (r"LEFT", ["RIGHT"]), (r"RIGHT", ["LEFT"]),
    (r"\.x\(\)", [".y()"]), (r"\.y\(\)", [".x()"]), (r"\.z\(\)", [".x()"]), (r"\brows\(\)", ["cols()"]), (r"\bcols\(\)", ["rows()"]),
    (r"topRows", ["bottomRows"]), (r"\bhead\b", ["tail"]), (r"\btail\b", ["head"]), (r"\bbreak;", [""]), (r"\bback\(\)", ["front()"]), (r"\bfront\(\)", ["back()"]),
    (r"\bsin\(", ["cos("]), (r"\bcos\(", ["sin("]), (r"\.transpose\(\)", [""]), (r"= -", ["= "]), (r"\+\+(\w)", [r"\1"]),
]


def gen(path):
    lines = open(os.path.join("/repo", path)).read().split("\n")
    out, comment, macro = [], False, False
    for n, l in enumerate(lines):
        s = l.strip()
        if comment:
            comment = "*/" not in s
            continue
        if s.startswith("/*"):
            comment = "*/" not in s
            continue
        if s.startswith("#") or macro:
            macro = s.endswith("\\")
            continue
        if s.startswith("//") or not s or s in "{}" or s.startswith("template") or "std::string" in s or "HUMOTO_ASSERT" in s or s.startswith('"') or "#include" in s or "class " in s or "msg <<" in s:
            continue
        seen = set()
        for pat, reps in RULES:
            for m in re.finditer(pat, l):
                if "//" in l[:m.start()]:
                    continue
                for r in reps:
                    t = l[:m.start()] + m.expand(r) + l[m.end():]
                    if t != l and t not in seen:
                        seen.add(t)
                        out.append({"file": path, "line": n + 1, "old": l, "new": t})
        if re.match(r"^[\w\.\(\)\[\]\->:<>, ]*(\(.*\)| [-+*/]?= .*);$", s) and not re.match(r"^(const |return|typedef|throw|using|delete|double |int |bool |std::|Eigen::\w+ +\w+|EigenIndex |Location |etools::\w+ +\w+ *[=;(]|virtual|static|void|explicit)", s) and s.count("(") == s.count(")"):
            out.append({"file": path, "line": n + 1, "old": l, "new": l[:len(l) - len(l.lstrip())] + ";"})
    return out


def run(listf, outf, workers):
    todo = [json.loads(l) for l in open(listf)]
    done = set()
    if os.path.exists(outf):
        for l in open(outf):
            r = json.loads(l)
            done.add((r["file"], r["line"], r["new"]))
    todo = [m for m in todo if (m["file"], m["line"], m["new"]) not in done]
    lock = threading.Lock()
    out = open(outf, "a")

    def work(k):
        root = "/tmp/mut/%d" % k
        if os.path.isdir(root):
            shutil.rmtree(root)
        os.makedirs(root)
        subprocess.check_call(["rsync", "-a", "--exclude", "_build", "--exclude", ".git", "/repo", root]) if shutil.which("rsync") else \
            subprocess.check_call("mkdir -p %s/repo && cd /repo && tar --exclude=./_build --exclude=./.git -cf - . | tar -C %s/repo -xf -" % (root, root), shell=True)
        subprocess.check_call("mkdir -p %s/verif && cd /verif && tar --exclude=./build --exclude=./.git --exclude=./seeded -cf - . | tar -C %s/verif -xf -" % (root, root), shell=True)
        while True:
            with lock:
                if not todo:
                    return
                m = todo.pop(0)
            f = os.path.join(root, "repo", m["file"])
            orig = open(f).read()
            ls = orig.split("\n")
            assert ls[m["line"] - 1] == m["old"], m
            ls[m["line"] - 1] = m["new"]
            open(f, "w").write("\n".join(ls))
            res, by = "survived", None
            for p in props_of(m["file"]):
                env = dict(os.environ, VERIF_REPO=os.path.join(root, "repo"), MC_JOBS="2", MC_FAILFAST="1", MC_STALL="20")
                try:
                    r = subprocess.run(["nice", "python3", os.path.join(root, "verif", "run.py"), p, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=1500)
                except subprocess.TimeoutExpired:
                    res, by = "timeout", p
                    break
                if r.returncode == 2:
                    res, by = ("nocompile" if "does not build" in r.stderr else "error"), p
                    break
                if r.returncode == 1:
                    v = [x for x in r.stdout.split("\n") if x.startswith("violated")]
                    res, by = "killed", p + " " + (v[0][:120] if v else "")
                    break
            open(f, "w").write(orig)
            m.update(result=res, by=by)
            with lock:
                out.write(json.dumps(m) + "\n")
                out.flush()

    ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        per = int(os.environ.get("PER_FILE", "1000"))
        random.seed(1)
        for p in sys.argv[2:]:
            ms = gen(p)
            if len(ms) > per:
                ms = random.sample(ms, per)
            for m in ms:
                print(json.dumps(m))
    else:
        run(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 4)
