"""Make planted bugs.  usage: mkseed.py SPEC.py ...

A spec is a Python file that defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...]
and DEMO (Python source; exits non-zero through an assertion when the property is broken).
The bug is tried in a scratch copy of /repo; it is kept in /verif/seeded/ID only when the
tests pass with it and the demo passes without and fails with it.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# run in /repo; exits 0 when the property holds
here="$(cd "$(dirname "$0")" && pwd)"
py=/opt/venv/bin/python; [ -x "$py" ] || py=python3
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec timeout 120 "$py" "$here/demo.py"
'''


def sh(cmd, cwd):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def make(spec):
    s = runpy.run_path(spec)
    base = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    repo = os.path.join(base, "repo")
    try:
        shutil.copytree(os.environ.get("VERIF_REPO", "/repo"), repo)
        sh("git checkout -- .", repo)
        dest = os.path.join(base, "out")
        os.mkdir(dest)
        with open(dest + "/demo.py", "w") as f:
            f.write(s["DEMO"])
        with open(dest + "/demo.sh", "w") as f:
            f.write(DEMO_SH)
        os.chmod(dest + "/demo.sh", 0o755)
        r = sh("bash " + dest + "/demo.sh", repo)
        if r.returncode:
            return "demo FAILS on the unchanged tree:\n" + r.stdout[-2000:]
        for name, old, new in s["EDITS"]:
            p = os.path.join(repo, name)
            t = open(p, encoding="utf-8").read()
            if t.count(old) != 1:
                return "edit matches {} times: {!r}".format(t.count(old), old)
            with open(p, "w", encoding="utf-8") as f:
                f.write(t.replace(old, new))
        # does it touch lines of ours?
        r = sh("bash " + dest + "/demo.sh", repo)
        if not r.returncode:
            return "demo passes with the change"
        tail = r.stdout.strip().splitlines()[-1:] 
        t = sh("/opt/venv/bin/python -m pytest -q -x tests 2>&1 | tail -5" if not os.path.exists("/opt/vp/test.sh") else
               "sed 's#/repo#{}#g' /opt/vp/test.sh > {}/test.sh; bash {}/test.sh {}/o.json".format(repo, base, base, base), repo)
        try:
            res = json.load(open(base + "/o.json"))
        except Exception as e:
            return "no test result {}: {}".format(e, t.stdout[-1500:])
        bl = json.load(open("/opt/vp/BASELINE.json"))
        passed = res.get("passed") or res.get("pass")
        need = bl.get("passed") or bl.get("stable") or bl.get("tests") or bl.get("pass")
        missing = [x for x in need if x not in passed]
        if missing:
            return "tests fail: {}".format(missing)
        d = sh("git diff", repo).stdout
        # only lines of the original repository may be changed
        root = sh("git rev-list --max-parents=0 HEAD", repo).stdout.strip()
        name = None
        for line in sh("git diff -U0", repo).stdout.splitlines():
            if line.startswith("--- a/"):
                name = line[6:]
            elif line.startswith("@@"):
                a = line.split()[1][1:].split(",")
                n = int(a[1]) if len(a) > 1 else 1
                if n:
                    for b in sh("git blame -l -s -L {},+{} HEAD -- {}".format(a[0], n, name), repo).stdout.splitlines():
                        if not b.lstrip("^").startswith(root[:38]):
                            return "changes a line of ours: " + b[41:]
        out = os.path.join(VERIF, "seeded", s["ID"])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(dest, out)
        with open(out + "/patch.diff", "w") as f:
            f.write(d)
        with open(out + "/meta.json", "w") as f:
            json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), f, indent=1)
            f.write("\n")
        return "kept: " + " ".join(tail)
    finally:
        shutil.rmtree(base, ignore_errors=True)


for spec in sys.argv[1:]:
    print(os.path.basename(spec), make(spec), flush=True)
