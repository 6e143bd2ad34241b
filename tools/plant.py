"""Developer helper: plant.py DEFS.py [id...] writes /verif/seeded/<id>/ from definitions and tries them in a scratch copy.

DEFS.py defines SEEDS = [dict(id, prop, file, edits=[(old, new)...] or files={file: edits}, demo, needs, breaks)].
`demo` is Python run with the repository first on the path; it must exit 0 on the unchanged tree only.
Options: --test also runs the stable tests in the copy; --check runs the property's quick check on the copy.
"""
import json, os, shutil, stat, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
S=$(mktemp -d); trap 'rm -rf "$S"' EXIT
mkdir -p "$S/home" "$S/work"
export HOME="$S/home" MPLBACKEND=Agg MPLCONFIGDIR=/opt/vp/mplconfig PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" OMP_NUM_THREADS=1
cd "$S/work" || exit 2
timeout 250 /opt/venv/bin/python -W ignore "$D/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(repo, tmp):
    src = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + repo).replace("S=/opt/vp/run", "S=" + tmp + "/run")
    p = os.path.join(tmp, "t.sh")
    open(p, "w").write(src)
    out = os.path.join(tmp, "out.json")
    sh(["bash", p, out])
    res = json.load(open(out))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(stable - set(res["passed"]))


def one(s, opts):
    d = os.path.join(HERE, "seeded", s["id"])
    tmp = tempfile.mkdtemp(prefix="plant_")
    repo = os.path.join(tmp, "repo")
    try:
        sh(["cp", "-a", "/repo", repo])
        files = s.get("files") or {s["file"]: s["edits"]}
        for f, edits in files.items():
            p = os.path.join(repo, f)
            t = open(p).read()
            for old, new in edits:
                if t.count(old) != 1:
                    return "%s: %d matches in %s for %r" % (s["id"], t.count(old), f, old[:60])
                t = t.replace(old, new)
            open(p, "w").write(t)
        diff = sh(["git", "-C", repo, "diff", "--", "corgidrp"]).stdout
        if not diff.startswith("diff --git"):
            return s["id"] + ": no diff: " + diff[:300]
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        a = sh(["bash", d + "/demo.sh"], cwd="/repo")
        b = sh(["bash", d + "/demo.sh"], cwd=repo)
        msg = "%s: clean rc %d, patched rc %d" % (s["id"], a.returncode, b.returncode)
        if a.returncode != 0:
            msg += "\n   CLEAN FAILS: " + a.stdout[-1500:]
        if b.returncode == 0:
            msg += "\n   PATCHED PASSES: " + b.stdout[-800:]
        if "--check" in opts:
            c = sh([os.path.join(HERE, "check"), s["prop"], "quick"], env=dict(os.environ, VF_REPO=repo, VERIF_SEED="1"))
            msg += "; check rc %d %s" % (c.returncode, "CAUGHT" if c.returncode == 1 else "MISSED\n" + c.stdout[-1500:])
            msg += "".join("\n     " + l[:160] for l in c.stdout.splitlines() if l.startswith("  clause"))
        if "--test" in opts:
            f = tests(repo, tmp)
            msg += "\n   stable tests failing: %s" % f
        return msg
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    opts = [a for a in sys.argv[2:] if a.startswith("--")]
    ids = [a for a in sys.argv[2:] if not a.startswith("--")]
    for s in ns["SEEDS"]:
        if not ids or s["id"] in ids:
            print(one(s, opts), flush=True)
