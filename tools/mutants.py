"""Sensitivity self-test of the analysers: textual mutations and behaviour-preserving edits of a scratch copy.

python3 tools/mutants.py [SUBSTRING]   each entry of tools/mutants.txt:
  @ name | file | C01,C02 (checks expected to report; '-' : all listed after it must stay quiet)
  <<< old  === new  >>>
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def entries():
    t = open(os.path.join(HERE, "mutants.txt")).read()
    for blk in re.split(r"^@ ", t, flags=re.M)[1:]:
        head, rest = blk.split("\n", 1)
        name, f, props = [x.strip() for x in head.split("|")]
        subs = re.findall(r"<<<\n(.*?)\n?===\n(.*?)\n?>>>", rest, flags=re.S)
        yield name, f, props, subs


def main():
    pat = sys.argv[1] if len(sys.argv) > 1 else ""
    bad = 0
    for name, f, props, subs in entries():
        if pat not in name and pat not in props:
            continue
        d = tempfile.mkdtemp(prefix="tkmut")
        try:
            shutil.copytree("/repo/src", os.path.join(d, "src"))
            p = os.path.join(d, "src/tenkit", f)
            s = open(p).read()
            for a, b in subs:
                if s.count(a) < 1:
                    print("??", name, "text not found:", a[:60])
                    bad += 1
                    continue
                s = s.replace(a, b, 1)
            compile(s, p, "exec")
            open(p, "w").write(s)
            quiet = props.startswith("-")
            for c in props.lstrip("- ").split(","):
                r = subprocess.run([sys.executable, "-m", "tk.run", c.strip()], cwd=VERIF, capture_output=True, text=True,
                                   env=dict(os.environ, TK_REPO=d, TK_NOEVIDENCE="1"))
                caught = r.returncode == 1 and "VIOLATION" in r.stdout
                ok = (r.returncode == 0) if quiet else caught
                und = re.search(r"(\d+) undecided", r.stdout)
                print("%s %-45s %s %s undecided=%s" % ("ok" if ok else "BAD", name, c, "quiet" if r.returncode == 0 else
                                          "reported" if caught else "rc=%d" % r.returncode, und and und.group(1)))
                if not ok:
                    bad += 1
                    print(r.stdout[-1500:], r.stderr[-500:])
        finally:
            shutil.rmtree(d)
    return bad


if __name__ == "__main__":
    sys.exit(1 if main() else 0)
