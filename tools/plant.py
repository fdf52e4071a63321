"""Confirms planted bugs and writes them to seeded/.

python3 tools/plant.py FILE [ID...]: FILE holds blocks

@@ <id> <property>
needs: <one line>
breaks: <one line>
file: <path under src/tenkit>
<<<
old text
===
new text
>>>
(further file:/<<< >>> parts)
demo:
<python program: exits 0 on the unchanged tree>
@@end

Each is applied to a scratch copy of /repo, built, tested (stable tests) and demonstrated.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def blocks(text):
    for m in re.finditer(r"^@@ (\S+) (C\d+)\n(.*?)^@@end", text, re.S | re.M):
        sid, prop, body = m.groups()
        needs = re.search(r"^needs: (.*)$", body, re.M).group(1)
        breaks = re.search(r"^breaks: (.*)$", body, re.M).group(1)
        head, demo = body.split("\ndemo:\n", 1)
        edits, cur = [], None
        for part in re.finditer(r"^file: (\S+)$|^<<<\n(.*?)^===\n(.*?)^>>>$", head, re.S | re.M):
            if part.group(1):
                cur = part.group(1)
            else:
                edits.append((cur, part.group(2), part.group(3)))
        yield sid, prop, needs, breaks, edits, demo


def main():
    only = sys.argv[2:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    for sid, prop, needs, breaks, edits, demo in blocks(open(sys.argv[1]).read()):
        if only and sid not in only:
            continue
        assert sh("git -C /repo status --porcelain").stdout == "", "/repo is not clean"
        d = os.path.join(VERIF, "seeded", sid)
        tmp = tempfile.mkdtemp(prefix="plant")
        try:
            os.makedirs(os.path.join(tmp, "demo"))
            with open(os.path.join(tmp, "demo", "demo.py"), "w") as fh:
                fh.write(demo)
            with open(os.path.join(tmp, "demo", "demo.sh"), "w") as fh:
                fh.write('#!/bin/bash\nHERE="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1\n'
                         'SCRATCH="$(mktemp -d)"\ntrap \'rm -rf "$SCRATCH"\' EXIT\n'
                         'REPO="$PWD"\ncd "$SCRATCH"\n'
                         'PYTHONPATH="$REPO/src" /opt/venv/bin/python "$HERE/demo.py"\n')
            r = sh("bash %s/demo/demo.sh" % tmp, cwd="/repo", timeout=300)
            if r.returncode != 0:
                print(sid, "DEMO FAILS ON THE UNCHANGED TREE", r.stdout[-1500:])
                continue
            for f, old, new in edits:
                p = os.path.join("/repo/src/tenkit", f)
                t = open(p, newline="").read()
                if "\r\n" in t:
                    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                n = t.count(old)
                if n != 1:
                    print(sid, "OLD TEXT OCCURS %d TIMES in %s: %r" % (n, f, old))
                    break
                open(p, "w", newline="").write(t.replace(old, new))
            else:
                diff = subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE).stdout
                r = sh("bash /opt/vp/build.sh", cwd="/repo")
                if r.returncode:
                    print(sid, "BUILD FAILS", r.stdout[-800:])
                    continue
                r = sh("bash %s/demo/demo.sh" % tmp, cwd="/repo", timeout=300)
                if r.returncode == 0:
                    print(sid, "DEMO PASSES WITH THE BUG", r.stdout[-500:])
                    continue
                demo_out = r.stdout.strip().splitlines()[-1:] or [""]
                r = sh("bash /opt/vp/test.sh %s/out.json" % tmp, cwd="/repo")
                res = json.load(open(os.path.join(tmp, "out.json")))
                bad = failed(base, res)
                if bad:
                    print(sid, "TESTS FAIL", bad[:5])
                    continue
                if os.path.isdir(d):
                    shutil.rmtree(d)
                shutil.copytree(os.path.join(tmp, "demo"), d)
                with open(os.path.join(d, "patch.diff"), "wb") as fh:
                    fh.write(diff)
                with open(os.path.join(d, "meta.json"), "w") as fh:
                    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, fh, indent=1)
                    fh.write("\n")
                o = sh("python3 -m tk.run %s" % prop, cwd=VERIF, env=dict(os.environ, TK_NOEVIDENCE="1"))
                hit = [l for l in o.stdout.splitlines() if l.startswith("VIOLATION")]
                print(sid, prop, "kept;", "CAUGHT" if o.returncode == 1 and hit else "MISSED rc=%d" % o.returncode,
                      "|", demo_out[0][:100], flush=True)
        finally:
            sh("git -C /repo checkout -- .")
            shutil.rmtree(tmp)


def failed(base, res):
    def flat(x):
        return x if isinstance(x, dict) else {}
    want = base.get("stable") or base.get("passed") or base.get("tests")
    got = set(res.get("passed") or [k for k, v in (res.get("tests") or {}).items() if v in ("passed", "pass", True)])
    want = [w if isinstance(w, str) else w.get("id") for w in want]
    return [w for w in want if w not in got]


if __name__ == "__main__":
    main()
