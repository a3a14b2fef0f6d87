"""make and verify planted bugs (run by hand)

python mkseed.py SPECFILE [ID...]   SPECFILE defines seed(id, property, edits, needs,
breaks, demo); edits: list of (file, old, new); demo: python source run by demo.sh in
the repository with the stand-ins copied beside it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(here, "seeded")
STABLE = ["metadetect/tests/test_interpolate.py", "metadetect/lsst/tests/test_lsst_configs.py"]
seeds = []


def seed(id, prop, edits, needs, breaks, demo):
    seeds.append((id, prop, edits, needs, breaks, demo))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


SH = """#!/bin/bash
# run in the repository; exit 0 if the property holds there
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export PYTHONPATH="$here:$here/standins:$PWD"
exec "$PY" -W ignore "$here/demo.py"
"""

exec(open(sys.argv[1]).read())
only = sys.argv[2:]
for id, prop, edits, needs, breaks, demo in seeds:
    if only and id not in only:
        continue
    d = os.path.join(SEEDED, id)
    tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        sh(["git", "-C", "/repo", "worktree", "list"], "/")
        sh("git -C /repo archive HEAD | tar -x -C %s" % tmp, "/", shell=True)
        sh("git init -q; git add -A; git -c user.name=a -c user.email=a@b commit -qm x", tmp,
           shell=True)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree(os.path.join(here, "standins"), os.path.join(d, "standins"),
                        ignore=shutil.ignore_patterns("__pycache__", "README.md"))
        if "lsst" not in demo.lower():
            shutil.rmtree(os.path.join(d, "standins", "lsst"))
        if "from lib" in demo:
            shutil.copytree(os.path.join(here, "lib"), os.path.join(d, "lib"),
                            ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        dem = ["bash", os.path.join(d, "demo.sh")]
        r = sh(dem, tmp)
        ok = r.returncode == 0
        msg = [] if ok else ["demo fails on the base: " + r.stdout[-600:]]
        for f, old, new in edits:
            p = os.path.join(tmp, f)
            s = open(p).read()
            if s.count(old) != 1:
                ok = False
                msg.append("%d matches in %s of %r" % (s.count(old), f, old))
                continue
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], tmp).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        r = sh(dem, tmp)
        if r.returncode == 0:
            ok = False
            msg.append("demo passes with the patch")
        elif "Traceback" in r.stdout and "AssertionError" not in r.stdout:
            msg.append("note: " + r.stdout.strip().splitlines()[-1])
        r = sh(". /opt/vp/env.sh; $PY - <<'X'\nimport runpy,sys\nimport importlib.util\n"
               "src=open('/opt/vp/support/partial_metadetect.py').read().replace("
               "'\"/repo\"', repr('%s'))\nimport types\nm=types.ModuleType('pm')\n"
               "exec(compile(src,'pm','exec'),m.__dict__)\nsys.path.insert(0,'%s')\n"
               "m.load()\nimport pytest\nsys.exit(pytest.main(['-q','-p',"
               "'no:cacheprovider']+%r))\nX" % (tmp, tmp, STABLE), tmp, shell=True)
        if r.returncode != 0 or "7 passed" not in r.stdout:
            ok = False
            msg.append("tests: " + r.stdout[-500:])
        env = dict(os.environ, VERIF_REPO=tmp, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
        r = sh(["./check.sh", prop], here, env=env)
        caught = r.returncode == 1 and ("VIOLATION property=%s " % prop) in r.stdout
        print("%-24s %s %s %s" % (id, prop, "ok" if ok else "BAD",
                                  "caught" if caught else "MISSED rc=%d" % r.returncode),
              *msg, sep="\n   " if msg else " ", flush=True)
        if caught:
            print("     ", [x for x in r.stdout.splitlines() if x.startswith("  [")][:1])
        else:
            print(r.stdout[-700:])
    finally:
        shutil.rmtree(tmp)
