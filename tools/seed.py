"""Planting bugs (development only; no check reads seeded/).
seed.py new ID PROP  < patch made in the scratch repo by editing; captures its diff, validates it, runs tests/demo/check
usage: edit files in /tmp/seed, put demo.py into /verif/seeded/ID/, then:  seed.py ID PROP "needs" "breaks" """
import json, os, re, shutil, subprocess, sys

R, S, V = "/repo", os.environ.get("SEED_DIR", "/tmp/seed"), "/verif"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    sid, prop, needs, breaks = sys.argv[1:5]
    d = f"{V}/seeded/{sid}"
    os.makedirs(d, exist_ok=True)
    if os.path.exists(f"{d}/patch.diff") and not sh(f"git -C {S} diff --stat").stdout:
        assert sh(f"git -C {S} apply {d}/patch.diff").returncode == 0
    diff = sh(f"git -C {S} diff").stdout
    assert diff, "no change"
    open(f"{d}/patch.diff", "w").write(diff)
    # touched lines must be original ones
    base = sh(f"git -C {R} rev-list --max-parents=0 HEAD").stdout.strip()
    bad = []
    for f in re.findall(r"^--- a/(.*)$", diff, re.M):
        old = set()
        cur = None
        for h in re.finditer(r"^(--- a/.*)$|^@@ -(\d+)", diff, re.M):
            pass
        bl = sh(f"git -C {R} blame -s --root HEAD -- {f}").stdout.splitlines()
        inf = False
        for line in diff.splitlines():
            if line.startswith("--- "):
                inf = line == "--- a/" + f
            elif line.startswith("+++ "):
                pass
            elif inf and line.startswith("@@"):
                n = int(re.match(r"@@ -(\d+)", line).group(1))
            elif inf and line.startswith("-"):
                if not base.startswith(bl[n - 1].split()[0].lstrip("^")[:7]):
                    bad.append((f, n, bl[n - 1][:100]))
                n += 1
            elif inf and line.startswith(" "):
                n += 1
    if bad:
        print("NOT ORIGINAL LINES:", bad)
    shutil.copy(f"{V}/tools/seedlib/support.py", f"{d}/support.py")
    if not os.path.exists(f"{d}/demo.sh"):
        open(f"{d}/demo.sh", "w").write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\n. /opt/vp/env.sh\nexport PYTHONPATH=$PWD:$here PYTHONDONTWRITEBYTECODE=1\nexec timeout 250 /opt/venv/bin/python -B "$here/demo.py"\n')
        os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    a = sh(f"bash {d}/demo.sh", cwd=R)
    b = sh(f"bash {d}/demo.sh", cwd=S)
    print(f"demo clean rc={a.returncode}  bug rc={b.returncode}: {[l for l in b.stdout.splitlines() if 'BROKEN' in l][:1]}")
    if a.returncode:
        print(a.stdout[-1500:], a.stderr[-3000:])
    if not b.returncode or not any('BROKEN' in l for l in b.stdout.splitlines()):
        print(b.stdout[-800:], b.stderr[-1500:])
    if "--nocheck" not in sys.argv and not os.environ.get("NOCHECK"):
        for p in [prop] + [x for x in sys.argv[5:] if re.match(r"C\d", x)]:
            c = sh(f"VERIF_REPO={S} timeout 900 ./run.sh {p} --tier quick", cwd=V)
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            print(f"check {p}: rc={c.returncode} {v[:1]}", [l for l in c.stdout.splitlines() if l.startswith('---')][:2], [l for l in c.stdout.splitlines() if 'wall=' in l])
            if c.returncode not in (0, 1):
                print(c.stdout[-1000:], c.stderr[-1500:])
    if "--notests" not in sys.argv and not os.environ.get("NOCHECK"):
        t = sh(f"VERIF_REPO={S} bash tools/repotests.sh -q 2>&1 | grep -E '^FAILED|^ERROR|passed|failed' | tail -8", cwd=V)
        print("with stand-in:", t.stdout[-600:].strip())
        if re.search("failed|error", t.stdout, re.I):
            sh(f"cd {S} && . /opt/vp/env.sh && PYTHONPATH=$PWD timeout 600 python -m pytest -q -p no:cacheprovider -o addopts= -o python_files='test_*.py text_*.py' --ignore-glob='*/__init__.py' --continue-on-collection-errors --timeout=300 --basetemp={S}tmp -o junit_family=xunit2 --junitxml={S}.xml mixtera")
            import xml.etree.ElementTree as E
            ok = {f"{c.get('classname')}::{c.get('name')}" for c in E.parse(f"{S}.xml").iter("testcase") if not [x for x in c if x.tag in ("failure", "error", "skipped")]}
            print("stable tests broken:", [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in ok])
    sh(f"git -C {S} checkout -- .")


main()
