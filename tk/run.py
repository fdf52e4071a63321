"""python3 -m tk.run <property> [--tier quick|thorough] [--only SUBSTRING] [-v]

Runs the scenarios of one property over /repo's current source, prints what was analysed,
writes evidence/<property>.json and exits 0 (no violation) or 1 (VIOLATION line).
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import signal
import time
import traceback

from . import interp, lab, sample

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" :: ")
                out[key.strip()] = text.strip()
    return out


def one(args):
    prop, tier, seed, name = args
    import resource
    sys.setrecursionlimit(20000)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    rep = lab.Report(prop, tier, seed)
    rep.scenario_time = {}
    t = time.time()
    try:
        mod = importlib.import_module("tk.checks." + prop.lower())
        interp.IGNORE_SINGLE = getattr(mod, "IGNORE_SINGLE", False)
        sample.ZEROS = getattr(mod, "ZEROS", False)
        fn = dict(mod.scenarios(tier))[name]
        la = lab.Lab(rep, name, variant=int(os.environ["TK_SIZES"]) if "TK_SIZES" in os.environ else None)
        fn(la)
        la.done()
    except TimeUp:
        rep.record(name, "time limit", "undecided", "stopped after %d s" % (time.time() - t))
    except Exception as e:           # the analyser itself failed: nothing is claimed for this scenario
        tb = traceback.extract_tb(e.__traceback__)[-1]
        rep.record(name, "engine", "undecided", "%s: %s at %s:%d" % (
            type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno))
        if os.environ.get("TK_DEBUG"):
            traceback.print_exc()
    if not rep.findings and rep.count("undecided") and not getattr(mod, "NO_SIZES", False):
        try:
            concrete_sizes(rep, mod, tier, name)
        except TimeUp:
            pass
    rep.scenario_time[name] = round(time.time() - t, 2)
    return rep


def concrete_sizes(rep, mod, tier, name):
    """Where symbolic mode lengths leave obligations undecided, the scenario is analysed again for a few
    fixed lengths (entries stay symbolic): weaker, and reported as `bounded`."""
    und = [o for o in rep.obligations if o[2] == "undecided"]
    good = 0
    for v in range(len(lab.SIZES)):
        r = lab.Report(rep.prop, rep.tier, rep.seed)
        la = None
        try:
            la = lab.Lab(r, name, variant=v)
            dict(mod.scenarios(tier))[name](la)
            la.done()
        except Exception as e:
            if os.environ.get("TK_DEBUG"):
                traceback.print_exc()
            r.record(name, "engine", "undecided", str(e))
        for f in r.findings:
            f.detail = "for sizes %s: %s" % (la.sizes, f.detail)
            if all(g.key != f.key for g in rep.findings):
                rep.findings.append(f)
        for o in r.obligations:
            if o[2] == "violated":
                rep.obligations.append(o)
        for k, n in r.unknowns.items():
            rep.unknowns[k] = rep.unknowns.get(k, 0) + n
        rep.statements += r.statements
        good += not r.findings and not r.count("undecided")
        if os.environ.get("TK_DEBUG"):
            for o in r.obligations:
                if o[2] != "ok":
                    print("   sizes %s: %s" % (la.sizes, o))
    if good == len(lab.SIZES):
        rep.obligations = [(a, b, "bounded", d) if c == "undecided" else (a, b, c, d) for a, b, c, d in rep.obligations]


class TimeUp(BaseException):
    pass


def _time_up(*_):
    signal.signal(signal.SIGALRM, signal.SIG_IGN)
    raise TimeUp


def _child(args, q, limit):
    signal.signal(signal.SIGALRM, _time_up)
    signal.alarm(int(limit))
    rep = one(args)
    signal.signal(signal.SIGALRM, signal.SIG_IGN)
    q.send(rep)
    q.close()


def pool_run(jobs, limit, budget, workers, known):
    """Each scenario in its own process. Scenarios that take more than the limit give what they have found by then; all
    stop at the budget, and a minute after the first new finding."""
    todo, live, done = list(jobs), [], []
    end = time.time() + budget

    def empty(j, t, why):
        rep = lab.Report(j[0], j[1], j[2])
        rep.scenario_time = {j[3]: t}
        rep.record(j[3], "time limit", "undecided", why)
        return rep
    while todo or live:
        now = time.time()
        while todo and len(live) < workers and now < end:
            j = todo.pop(0)
            r, w = mp.Pipe(False)
            p = mp.Process(target=_child, args=(j, w, max(1, min(limit, end - now))))
            p.start()
            w.close()
            live.append((j, p, r, now))
        rest = []
        for j, p, r, t in live:
            rep = None
            if r.poll(0.01):
                try:
                    rep = r.recv()
                except EOFError:
                    rep = empty(j, time.time() - t, "the analysis process ended early")
                p.join()
            elif time.time() - t > limit + 15 or time.time() > end + 15:
                p.kill()
                p.join()
                rep = empty(j, time.time() - t, "more than %d s" % limit)
            if rep is None:
                rest.append((j, p, r, t))
            else:
                r.close()
                done.append(rep)
                if any(f.key not in known for f in rep.findings) and end > time.time() + 60:
                    end = time.time() + 60
        live = rest
        if time.time() > end:
            for j in todo:
                done.append(empty(j, 0, "not reached"))
            todo = []
            for j, p, r, t in live:
                try:
                    os.kill(p.pid, signal.SIGALRM)
                except OSError:
                    pass
            for _ in range(100):
                if all(r.poll(0.01) or not p.is_alive() for j, p, r, t in live):
                    break
                time.sleep(0.05)
    return done


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--only", default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    prop = a.prop.upper()
    tier = "thorough" if a.thorough else a.tier or "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    mod = importlib.import_module("tk.checks." + prop.lower())
    names = [n for n, _ in mod.scenarios(tier)]
    assert len(names) == len(set(names)), "duplicate scenario names"
    if a.only:
        names = [n for n in names if a.only in n]
    limit, budget = (240, 480) if tier == "quick" else (1500, 6000)
    reps = pool_run([(prop, tier, seed, n) for n in names], limit, budget, a.j, known_findings(prop))

    obl, findings, funcs, calls, unk, times, notes = [], {}, {}, set(), {}, {}, []
    steps = 0
    for r in sorted(reps, key=lambda r: list(r.scenario_time)[0]):
        obl += r.obligations
        for f in r.findings:
            findings.setdefault(f.key, f)
        for k, v in r.functions.items():
            funcs[k] = funcs.get(k, 0) + v
        calls |= r.calls
        for k, v in r.unknowns.items():
            unk[k] = unk.get(k, 0) + v
        times.update(r.scenario_time)
        steps += r.statements
        notes += r.notes
    known = known_findings(prop)
    n_ok = sum(o[2] == "ok" for o in obl)
    n_und = sum(o[2] == "undecided" for o in obl)
    n_bad = sum(o[2] == "violated" for o in obl)
    new = [f for k, f in sorted(findings.items()) if k not in known]
    old = [f for k, f in sorted(findings.items()) if k in known]

    n_bnd = sum(o[2] == "bounded" for o in obl)
    print("%s: %d scenarios, %d obligations: %d discharged, %d for fixed sizes only, %d undecided, %d violated" % (
        prop, len(names), len(obl), n_ok, n_bnd, n_und, n_bad))
    print("analysed %d functions of the package through %d call sites (%d statements walked); longest scenarios: %s" % (
        len(funcs), len(calls), steps,
        ", ".join("%s %.1fs" % kv for kv in sorted(times.items(), key=lambda kv: -kv[1])[:4])))
    for k, v in sorted(funcs.items()) if a.v else []:
        print("   function %s (%d times)" % (k, v))
    for o in obl:
        if o[2] == "undecided" or a.v:
            print("   %s [%s] %s %s" % (o[2].upper(), o[0], o[1], o[3][:400]))
    for k, v in sorted(unk.items(), key=lambda kv: -kv[1])[:20]:
        print("   not modelled (%d): %s" % (v, k))

    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    level = getattr(mod, "LEVEL", "other")
    samples = ["[%s] %s: %s" % (o[0], o[1], o[2]) for o in obl[:: max(1, len(obl) // 12)]][:14]
    violations = []
    replays = os.path.join(VERIF, "evidence", "%s.violations.txt" % prop)
    if os.path.exists(replays):
        os.unlink(replays)
    if new:
        with open(replays, "w") as fh:
            for f in new:
                fh.write("%s\n  %s\n" % (f.key, f.detail))
                for t in f.trace:
                    fh.write("    %s\n" % (t,))
        for f in new:
            violations.append({"what": f.key, "detail": f.detail[:1000]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "explanation": getattr(mod, "RULE", "").strip() or "abstract interpretation of /repo's source",
            "rule": "an obligation is discharged if the abstract value derived from the source has the same normal "
                    "form as the specification's value for symbolic sizes and entries",
            "obligations": len(obl), "discharged": n_ok, "discharged_for_fixed_sizes": n_bnd,
            "undecided": n_und, "violated": n_bad,
            "known_findings": [f.key for f in old],
            "scenarios": len(names), "statements_walked": steps,
            "functions_analysed": sorted(funcs), "call_sites": len(calls),
            "not_modelled": sorted(unk)[:40],
            "undecided_obligations": ["[%s] %s: %s" % (o[0], o[1], o[3][:200]) for o in obl if o[2] == "undecided"][:40],
            "samples": samples, "violated_rules": violations,
            "checker_cmd": "python3 -m tk.run %s%s" % (prop, " --thorough" if tier == "thorough" else ""),
            "trusted_base": ["tk/ (interpreter, term algebra, NumPy/SciPy/h5py models)"],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", [
            "real arithmetic instead of floating point", "NumPy, SciPy and h5py behave as modelled in tk/npm.py and tk/h5m.py"]),
        "violations": len(violations),
        "wall_s": round(time.time() - t0, 2),
    }
    if not os.environ.get("TK_NOEVIDENCE"):
        with open(os.path.join(VERIF, "evidence", "%s.json" % prop), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
            fh.write("\n")

    for f in old:
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, f.key, known[f.key][:300]))
    for f in new:
        print("  broken: %s\n    %s" % (f.key, f.detail[:1500]))
    if new:
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(replays, VERIF)))
        return 1
    if not obl or n_ok + n_bnd == 0:
        print("error: nothing could be decided")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
