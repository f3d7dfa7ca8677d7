"""Runs a property's generated-input search: several worker processes, each a seeded Hypothesis run per leg.

Exit codes: 0 held on everything explored; 1 with a VIOLATION line; 3 the machinery itself failed.
"""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import env

PROPS = ["C%02d" % i for i in range(1, 100)]
WORKERS = 8
CASE_CPU_S = 60          # CPU seconds for one case; ordinary cases take milliseconds
SHRINK_CPU_S = 40        # CPU seconds spent on shrinking after the first failure
KNOWN = os.path.join(env.VERIF, "known-findings.txt")


class Leg:
    """One generated search: a strategy for JSON cases and a check.

    check(case) returns {"nontrivial": bool, "labels": [...]}, raises Violation when the property is broken and
    Reject when the case is outside the stated domain.
    """

    def __init__(self, name, strategy, check, quick, thorough, rule, crash_is_violation=True):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.crash_is_violation = crash_is_violation


class Timeout(BaseException):
    pass


class Harness(Exception):
    """A defect of the machinery (not of the code under test)."""


def _on_alarm(signum, frame):
    raise Timeout()


def _in_repo(tb):
    """Was the exception raised while code of /repo was running?"""
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(os.path.join(env.REPO, "foronoi")):
            return True
        tb = tb.tb_next
    return False


def describe_exception(e):
    last = traceback.extract_tb(e.__traceback__)[-1]
    return "%s: %s (at %s:%s)" % (type(e).__name__, str(e)[:200], os.path.relpath(last.filename, env.REPO)
                                  if last.filename.startswith(env.REPO) else os.path.basename(last.filename),
                                  last.lineno)


def evaluate(leg, case):
    """(status, detail): ok / rejected / violation."""
    from .diag import Violation, Reject
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        info = leg.check(case)
        return "ok", info or {"nontrivial": True, "labels": []}
    except Reject as e:
        return "rejected", str(e)
    except Violation as e:
        return "violation", str(e)
    except Timeout:
        return "violation", "no result after %d s of CPU time (ordinary cases take milliseconds)" % CASE_CPU_S
    except MemoryError:
        return "violation", "memory exhausted (limit 6 GB; ordinary cases take a few MB)"
    except Exception as e:  # an exception of the code under test on a valid input
        if leg.crash_is_violation and _in_repo(e.__traceback__):
            return "violation", "unexpected exception " + describe_exception(e)
        if leg.crash_is_violation and isinstance(e, (AttributeError, TypeError, IndexError, KeyError, ValueError,
                                                     ArithmeticError, RecursionError, AssertionError)):
            return "violation", "the observed result has an unusable shape: " + describe_exception(e)
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).digest()[:10]


def derive(seed, *parts):
    return int.from_bytes(hashlib.sha256(repr((seed,) + parts).encode()).digest()[:6], "big")


def _case_size(case):
    s = json.dumps(case)
    return len(s), s


def worker(prop, legname, seed, count, wid, out):
    """Runs in its own process; puts one result dict on the queue."""
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(1000)
        sys.stdout = sys.stderr = open(os.devnull, "w")
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase
        module = importlib.import_module("fv.props." + prop.lower())
        leg = [x for x in module.LEGS if x.name == legname][0]
        known = {_digest(c) for c in load_known(prop, legname)}
        st = {"evals": 0, "rejected": 0, "labels": collections.Counter(), "nontrivial": set(), "samples": [],
              "fail": None, "known_hits": 0, "t_fail": None}

        class Found(Exception):
            pass

        @hypothesis.seed(derive(seed, prop, legname, wid))
        @settings(max_examples=count, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                  phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, derandomize=False)
        @given(leg.strategy)
        def test(case):
            if st["t_fail"] is not None and time.process_time() - st["t_fail"] > SHRINK_CPU_S:
                return
            status, info = evaluate(leg, case)
            if status == "violation":
                if _digest(case) in known:
                    st["known_hits"] += 1
                    return
                if st["t_fail"] is None:
                    st["t_fail"] = time.process_time()
                if st["fail"] is None or _case_size(case) <= _case_size(st["fail"][0]):
                    st["fail"] = (case, info)
                raise Found()
            if st["t_fail"] is not None:
                return
            if status == "rejected":
                st["rejected"] += 1
                hypothesis.assume(False)
            st["evals"] += 1
            for lab in info.get("labels", []):
                st["labels"][lab] += 1
            if info.get("nontrivial"):
                st["nontrivial"].add(_digest(case))
                if len(st["samples"]) < 2 or (st["evals"] % 97 == 0 and len(st["samples"]) < 4):
                    st["samples"].append(case)

        err = None
        try:
            test()
        except Found:
            pass
        except BaseException as e:  # noqa
            if st["fail"] is None:
                err = "".join(traceback.format_exception(e))[-3000:]
        out.put({"prop": prop, "leg": legname, "wid": wid, "evals": st["evals"], "rejected": st["rejected"],
                 "labels": dict(st["labels"]), "nontrivial": list(st["nontrivial"]), "samples": st["samples"],
                 "fail": st["fail"], "error": err, "known_hits": st["known_hits"]})
    except BaseException as e:  # noqa
        out.put({"prop": prop, "leg": legname, "wid": wid, "evals": 0, "rejected": 0, "labels": {}, "nontrivial": [],
                 "samples": [], "fail": None, "error": "".join(traceback.format_exception(e))[-3000:],
                 "known_hits": 0})
    out.close()
    out.join_thread()
    os._exit(0)


def known_entries(prop):
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                parts = line.split(" ", 3)
                path = parts[2].split("=", 1)[1]
                res.append((os.path.join(env.VERIF, path), parts[3]))
    return res


def load_known(prop, legname):
    out = []
    for path, _ in known_entries(prop):
        d = json.load(open(path))
        if d["leg"] == legname:
            out.append(d["case"])
    return out


def saved_regressions(prop):
    d = os.path.join(env.VERIF, "regressions")
    if not os.path.isdir(d):
        return []
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.startswith(prop + "-") and f.endswith(".json")]


def _replay_child(prop, path, q):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        d = json.load(open(path))
        module = importlib.import_module("fv.props." + prop.lower())
        leg = [x for x in module.LEGS if x.name == d["leg"]][0]
        q.put(evaluate(leg, d["case"]))
    except BaseException as e:  # noqa
        q.put(("error", "".join(traceback.format_exception(e))[-3000:]))
    q.close()
    q.join_thread()
    os._exit(0)


def replay(prop, path):
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    p = ctx.Process(target=_replay_child, args=(prop, path, q))
    p.start()
    res = None
    end = time.time() + 400
    while time.time() < end:
        try:
            res = q.get(timeout=1)
            break
        except Exception:
            if not p.is_alive():
                try:
                    res = q.get(timeout=1)
                except Exception:
                    res = ("violation", "the process running the case died (exit code %s)" % p.exitcode)
                break
    if res is None:
        res = ("error", "no answer from the replay process")
    if p.is_alive():
        p.join(2)
        if p.is_alive():
            p.kill()
    return res


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--leg")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    scratch = env.scratch_dir()
    os.environ["FV_SCRATCH"] = scratch
    mpl = os.path.join(scratch, "mpl")
    if os.path.isdir("/opt/vp/mpl"):
        shutil.copytree("/opt/vp/mpl", mpl)
    else:
        os.makedirs(mpl)
    os.environ["MPLCONFIGDIR"] = mpl
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    try:
        code = _main(a, prop, seed, t0)
    except SystemExit:
        raise
    except BaseException:  # noqa
        traceback.print_exc()
        code = 3
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


def _main(a, prop, seed, t0):
    if a.replay:
        st, info = replay(prop, a.replay)
        print(st, info)
        if st == "violation":
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
        return {"ok": 0, "rejected": 0, "violation": 1}.get(st, 3)

    module = importlib.import_module("fv.props." + prop.lower())
    legs = [x for x in module.LEGS if not a.leg or x.name == a.leg]
    thorough = a.tier == "thorough"

    # Saved inputs first: known findings (reported, not raised) and regressions of repaired defects.
    violations = []
    regress = 0
    for path, what in known_entries(prop):
        st, info = replay(prop, path)
        if st == "violation":
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
        elif st == "error":
            print(info, file=sys.stderr)
            return 3
    for path in saved_regressions(prop):
        st, info = replay(prop, path)
        regress += 1
        if st == "violation":
            violations.append((path, info))
        elif st == "error":
            print(path, info, file=sys.stderr)
            return 3

    # Generated search.
    jobs = []
    for leg in legs:
        total = int((leg.thorough if thorough else leg.quick) * a.scale)
        parts = WORKERS if not thorough else WORKERS * 4
        if total < parts:
            parts = max(1, total)
        for w in range(parts):
            jobs.append((leg.name, total // parts + (1 if w < total % parts else 0), w))
    # longest legs first is not known; interleave the legs so that the pool stays full
    jobs.sort(key=lambda j: j[2])
    ctx = mp.get_context("fork")
    results, running = [], []
    pending = list(jobs)
    deadline = t0 + (780 if not thorough else 6 * 3600)
    inconclusive = False
    stop_new = bool(violations)
    if stop_new:
        pending = []
    while pending or running:
        while pending and len(running) < WORKERS:
            name, count, w = pending.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=worker, args=(prop, name, seed, count, w, q))
            p.start()
            running.append((p, q, (name, count, w)))
        time.sleep(0.02)
        still = []
        for p, q, job in running:
            got = None
            try:
                got = q.get_nowait()
            except Exception:
                if not p.is_alive():
                    try:
                        got = q.get(timeout=2)
                    except Exception:
                        got = {"leg": job[0], "wid": job[2], "evals": 0, "rejected": 0, "labels": {},
                               "nontrivial": [], "samples": [], "fail": None, "known_hits": 0,
                               "error": "worker died, exit code %s" % p.exitcode}
            if got is None:
                still.append((p, q, job))
                continue
            results.append(got)
            p.join(1)
            if p.is_alive():
                p.kill()
            if got["fail"] is not None:
                pending = []
        running = still
        if time.time() > deadline:
            inconclusive = True
            for p, q, job in running:
                p.kill()
            break
        # once one worker has found and shrunk a failure, give the others a little time and stop
        if any(r["fail"] for r in results):
            first = [r for r in results if r["fail"]]
            t_first = getattr(_main, "t_first", None) or time.time()
            _main.t_first = t_first
            if time.time() - t_first > 5:
                for p, q, job in running:
                    p.kill()
                break

    fails = sorted((r for r in results if r["fail"]), key=lambda r: _case_size(r["fail"][0]))
    replay_dir = os.path.join(env.VERIF, "replays")
    if fails:
        r = fails[0]
        os.makedirs(replay_dir, exist_ok=True)
        case, info = r["fail"]
        path = os.path.join(replay_dir, "%s-%s.json" % (prop, _digest(case).hex()[:10]))
        with open(path, "w") as f:
            json.dump({"property": prop, "leg": r["leg"], "case": case, "what": info}, f, indent=1)
        violations.append((path, info))

    errors = [r["error"] for r in results if r["error"]]
    evals = sum(r["evals"] for r in results) + regress
    distinct = set()
    labels = collections.Counter()
    per_leg = {}
    samples = []
    for r in results:
        for d in r["nontrivial"]:
            distinct.add((r["leg"], d))
        for k, v in r["labels"].items():
            labels[r["leg"] + ": " + k] += v
        pl = per_leg.setdefault(r["leg"], {"evaluations": 0, "rejected": 0, "nontrivial": 0})
        pl["evaluations"] += r["evals"]
        pl["rejected"] += r["rejected"]
    for leg, _ in distinct:
        per_leg[leg]["nontrivial"] += 1
    seen = collections.Counter()
    for r in sorted(results, key=lambda r: (r["leg"], r["wid"])):
        for c in r["samples"]:
            if seen[r["leg"]] < 3 and len(json.dumps(c)) < 4000:
                seen[r["leg"]] += 1
                samples.append({"leg": r["leg"], "case": c})
    wall = time.time() - t0
    evidence = {
        "property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(distinct),
            "rule": "; ".join("%s: %s" % (l.name, l.rule) for l in legs),
            "samples": samples, "legs": per_leg, "labels": dict(sorted(labels.items())),
            "saved_inputs_replayed": regress, "known_finding_inputs_skipped": sum(r["known_hits"] for r in results),
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(env.VERIF, "evidence", ".%s.tmp" % prop)
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1)
        os.replace(tmp, os.path.join(env.VERIF, "evidence", prop + ".json"))
    for path, info in violations:
        print("property %s is broken: %s" % (prop, info))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if violations:
        return 1
    if errors:
        print(errors[0], file=sys.stderr)
        return 3
    if inconclusive:
        print("time budget exhausted before all cases ran (inconclusive)", file=sys.stderr)
        return 3
    print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (prop, evals, len(distinct), wall))
    for k, v in sorted(per_leg.items()):
        print("  %s: %s" % (k, v))
    return 0
