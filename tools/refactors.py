"""Behaviour-preserving rewritings: every check must stay quiet on each.

python3 tools/refactors.py [SUBSTRING] [--tests]   entries of tools/refactors.txt:
  ## name
  file: <path under src/tenkit>
  <<< old  === new  >>>   (any number, further file: parts)
--tests also runs the repository's tests on the rewritten copy.
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def entries():
    t = open(os.path.join(HERE, "refactors.txt")).read()
    for blk in re.split(r"^## ", t, flags=re.M)[1:]:
        name, rest = blk.split("\n", 1)
        cur, edits = None, []
        for m in re.finditer(r"^file: (\S+)$|^<<<\n(.*?)^===\n(.*?)^>>>$", rest, re.S | re.M):
            if m.group(1):
                cur = m.group(1)
            else:
                edits.append((cur, m.group(2), m.group(3)))
        yield name.strip(), edits


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    bad = 0
    import json
    stable = re.findall(r"\.(test_\w+)", json.dumps(json.load(open("/opt/vp/BASELINE.json"))))
    for name, edits in entries():
        if args and args[0] not in name:
            continue
        d = tempfile.mkdtemp(prefix="tkref")
        try:
            shutil.copytree("/repo/src", os.path.join(d, "src"))
            for f, a, b in edits:
                p = os.path.join(d, "src/tenkit", f)
                s = open(p, newline="").read()
                crlf = "\r\n" in s
                s = s.replace("\r\n", "\n")
                if s.count(a) < 1:
                    print("??", name, f, "text not found:", a[:70].strip())
                    bad += 1
                s = s.replace(a, b)
                open(p, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)
            if "--tests" in sys.argv:
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "src/tenkit"], cwd=d,
                                   env={**os.environ, "PYTHONPATH": os.path.join(d, "src")},
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                failed = [x for x in re.findall(r"^FAILED \S*::(\S+)", r.stdout, re.M) if x in stable]
                print("   tests of %s: %s, stable ones failing: %s" % (name, r.stdout.strip().split("\n")[-1], failed))
            props = ["C%02d" % i for i in range(1, 41)
                     if os.path.exists(os.path.join(VERIF, "tk/checks/c%02d.py" % i))]
            env = {**os.environ, "TK_REPO": d, "TK_NOEVIDENCE": "1"}

            def one(p):
                r = subprocess.run([sys.executable, "-m", "tk.run", p], cwd=VERIF, env=env, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True)
                m = re.search(r"(\d+) undecided", r.stdout)
                return p, r.returncode, int(m.group(1)) if m else -1, r.stdout
            with ThreadPoolExecutor(4) as ex:
                res = list(ex.map(one, props))
            loud = [p for p, c, u, o in res if c != 0]
            print("ok " if not loud else "BAD", name, "alarms: %s" % loud if loud else "",
                  "undecided: " + " ".join("%s:%d" % (p, u) for p, c, u, o in res if u), flush=True)
            for p, c, u, o in res:
                if c != 0:
                    bad += 1
                    print("\n".join("    " + x for x in o.split("\n") if "VIOLATION" in x or "engine" in x or c == 2)[:3000])
        finally:
            shutil.rmtree(d)
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
