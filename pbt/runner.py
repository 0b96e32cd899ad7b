"""Runs the sub-checks of one property, writes evidence and replay files."""
import argparse
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
NPROC = 8
SHARD = {"quick": 150, "thorough": 400}
SOFT_LIMIT = {"quick": 420.0, "thorough": 3 * 3600.0}
HARD_EXTRA = 240.0
CASE_LIMIT = 40.0     # seconds of CPU time; cases take milliseconds


class Sub:
    def __init__(self, fn, quick, thorough, rule, hangs):
        """quick, thorough: numbers of cases."""
        self.fn, self.quick, self.thorough, self.rule = fn, quick, thorough, rule
        self.hangs = hangs
        self.name = fn.__name__


class Check:
    """A property's collection of sub-checks."""

    def __init__(self, pid, assumptions=(), hangs="violation", factor=2.5):
        """factor: multiplies the quick numbers of cases; hangs: what a case that uses more than CASE_LIMIT seconds of CPU time
        is: a "violation", or "abandoned" where the cost of a case depends on
        numbers (adaptive integration of a model)."""
        self.pid = pid
        self.hangs = hangs
        self.factor = factor
        self.subs = []
        self.assumptions = list(assumptions)

    def sub(self, quick=300, thorough=None, rule="every generated case"):
        def deco(fn):
            self.subs.append(
                Sub(fn, int(quick * self.factor), quick * 20 if thorough is None else thorough, rule,
                    self.hangs)
            )
            return fn

        return deco


class HarnessError(Exception):
    pass


class CaseTimeout(BaseException):
    """Not an Exception, so that the code under test does not catch it."""


class Abandoned(Exception):
    pass


def _case_timeout(signum, frame):
    raise CaseTimeout


def limited(fn, g):
    """fn(g), ended by a CaseTimeout if it uses too much CPU time."""
    signal.signal(signal.SIGVTALRM, _case_timeout)
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_LIMIT, 1.0)
        fn(g)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


# --------------------------------------------------------------------------
def import_target():
    """Import opinf from the working tree (never from cached bytecode)."""
    import numpy, scipy, scipy.linalg, scipy.sparse, scipy.interpolate  # noqa
    import scipy.optimize, scipy.integrate, scipy.special, scipy.stats  # noqa
    import sklearn.utils.extmath, h5py, matplotlib.pyplot  # noqa
    import warnings

    sys.pycache_prefix = "/nonexistent/verif-no-pycache"
    sys.path.insert(0, SRC)
    import opinf

    if not os.path.abspath(opinf.__file__).startswith(os.path.abspath(SRC)):
        raise HarnessError(f"imported wrong opinf: {opinf.__file__}")
    warnings.simplefilter("ignore")
    numpy.seterr(all="ignore")
    return opinf


UNUSABLE = (TypeError, ValueError, AttributeError, IndexError, KeyError,
            AssertionError, FileNotFoundError, ArithmeticError)


def through_target(exc):
    """True if the traceback (or that of a cause) passes through opinf."""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            fn = os.path.abspath(tb.tb_frame.f_code.co_filename)
            if fn.startswith(os.path.abspath(SRC) + os.sep):
                return True
            tb = tb.tb_next
        exc = exc.__cause__ or exc.__context__
    return False


def run_case(sub, g):
    """One execution: raises Violation or HarnessError on failure."""
    from pbt.oracle import Violation
    from hypothesis.errors import HypothesisException, InvalidArgument
    from hypothesis.internal.conjecture.data import StopTest

    from pbt.gen import ReplayMismatch

    try:
        with contextlib.redirect_stdout(io.StringIO()):
            limited(sub.fn, g)
    except CaseTimeout as ex:
        if sub.hangs == "violation":
            raise Violation(f"a case took over {CASE_LIMIT:.0f} s of CPU time") from ex
        raise Abandoned from ex
    except InvalidArgument as ex:
        raise Violation(f"the oracle cannot use what the code returned: {ex}") from ex
    except (Violation, StopTest, HypothesisException, ReplayMismatch):
        raise
    except Exception as ex:
        if through_target(ex):
            raise Violation(
                f"in-domain call raised {type(ex).__name__}: {ex}"
            ) from ex
        if isinstance(ex, UNUSABLE):
            # The oracle accepts whatever the documentation allows to be
            # returned (None, wrong types, wrong shapes, missing files and
            # attributes are not among it).
            raise Violation(
                "the oracle cannot use what the code returned: "
                f"{type(ex).__name__}: {ex}"
            ) from ex
        raise HarnessError(f"{type(ex).__name__}: {ex}") from ex


def job_worker(modname, subname, shard, nshards, n, seed, tier, outpath, soft_deadline, tmp):
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(tmp, "hyp")
    os.chdir(tmp)
    result = {"sub": subname, "shard": shard, "evaluations": 0, "keys": [],
              "tags": {}, "samples": [], "skipped": 0, "abandoned": 0, "status": "ok"}
    try:
        _job(modname, subname, shard, nshards, n, seed, tier, result, soft_deadline)
    except BaseException as ex:  # noqa
        result["status"] = "error"
        result["message"] = "".join(traceback.format_exception(ex))[-6000:]
    with open(outpath + ".tmp", "w") as f:
        json.dump(result, f)
    os.replace(outpath + ".tmp", outpath)


def _job(modname, subname, shard, nshards, n, seed, tier, result, soft_deadline):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase, strategies as st
    from hypothesis.internal.conjecture import engine
    from pbt.gen import G
    from pbt.oracle import Violation

    engine.MAX_SHRINKING_SECONDS = 45
    mod = importlib.import_module(modname)
    sub = {s.name: s for s in mod.CHECK.subs}[subname]
    h = int.from_bytes(
        hashlib.sha256(f"{seed}/{modname}/{subname}/{shard}/{nshards}".encode()).digest()[:7],
        "big",
    )
    keys = set()
    last = {}

    @hypothesis.seed(h)
    @settings(max_examples=n, database=None, deadline=None,
              derandomize=False, print_blob=False, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck),
              phases=(Phase.generate, Phase.shrink),
              verbosity=hypothesis.Verbosity.quiet)
    @given(st.data())
    def prop(data):
        if time.time() > soft_deadline:
            result["skipped"] += 1
            return
        g = G(data, thorough=(tier == "thorough"))
        failing = True
        try:
            run_case(sub, g)
            failing = False
        except Abandoned:
            failing = False
            result["abandoned"] += 1
            hypothesis.reject()
        except (Violation, HarnessError) as ex:
            # remember; Hypothesis re-executes the minimal case last
            cause = ex.__cause__ or ex
            last["fail"] = {
                "kind": type(ex).__name__,
                "message": str(ex),
                "draws": g.log,
                "traceback": "".join(traceback.format_exception(cause))[-4000:],
            }
            raise
        finally:
            if not failing or last:
                result["evaluations"] += 1
        for t in g.tags:
            result["tags"][t] = result["tags"].get(t, 0) + 1
        if g.is_nontrivial:
            k = hashlib.md5(g.key().encode()).hexdigest()[:16]
            if k not in keys:
                keys.add(k)
                if len(keys) in (7, 31) or (len(keys) == 1 and n < 20):
                    result["samples"].append(
                        {"sub": subname, "tags": sorted(g.tags), "draws": g.log}
                    )

    try:
        prop()
    except (Violation, HarnessError):
        f = last["fail"]
        result["status"] = "violation" if f["kind"] == "Violation" else "error"
        result.update(message=f["message"], draws=f["draws"], traceback=f["traceback"])
    except hypothesis.errors.Unsatisfiable:
        if not result["abandoned"]:
            raise
    except hypothesis.errors.Flaky as ex:
        f = last.get("fail")
        # A case that failed once and not again: real nondeterminism is not
        # expected anywhere, so keep what was seen but say it is flaky.
        # A Violation that does not repeat in isolation (state leaking from one
        # case to the next) is still a violation of the code under test.
        result["status"] = (
            "violation" if f and f["kind"] == "Violation" else "flaky")
        result.update(message=str(ex)[:500] + " :: " + (f or {}).get("message", ""),
                      draws=(f or {}).get("draws"), traceback=(f or {}).get("traceback"))
    result["keys"] = sorted(keys)


# --------------------------------------------------------------------------
def load_known():
    path = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: "):
                out.append(json.loads(line[len("known: "):]))
    return out


def self_test():
    """setup_cmd: everything needed imports, and a wrong oracle is reported."""
    import_target()
    names = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "checks"))
                   if f[0] == "c" and f[1:3].isdigit())
    for name in names:
        importlib.import_module("checks." + name)
    from hypothesis import given, settings, strategies as st

    @settings(max_examples=50, database=None)
    @given(st.integers())
    def never_large(x):
        assert x < 1000

    try:
        never_large()
    except AssertionError:
        print(f"self-test ok: {len(names)} checks import, Hypothesis finds and shrinks")
        return 0
    return 2


def main(argv):
    if argv[:1] == ["--self-test"]:
        return self_test()
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--sub", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args(argv)
    tier = args.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in SHARD:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    modname = "checks." + args.property.lower()
    try:
        import_target()
        mod = importlib.import_module(modname)
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={args.property} could not load the check")
        return 2
    check = mod.CHECK
    if args.replay:
        return replay(check, args.replay)

    tmp = tempfile.mkdtemp(prefix=f"verif-{check.pid}-")
    try:
        return campaign(check, modname, tier, seed, args, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def campaign(check, modname, tier, seed, args, t0, tmp):
    ctx = multiprocessing.get_context("fork")
    shutil.rmtree(os.path.join(HERE, "replays", check.pid), ignore_errors=True)
    jobs = []
    for sub in check.subs:
        if args.sub and sub.name not in args.sub:
            continue
        n = max(1, int((sub.quick if tier == "quick" else sub.thorough) * args.scale))
        size = SHARD[tier]
        ns = max(1, -(-n // size))
        for i in range(ns):
            jobs.append((sub.name, i, ns, -(-n // ns)))
    # round-robin over sub-checks so that each gets an early share
    jobs.sort(key=lambda j: j[1])
    soft = t0 + SOFT_LIMIT[tier]
    hard = soft + HARD_EXTRA
    running, results, queue = {}, [], list(enumerate(jobs))
    while queue or running:
        while queue and len(running) < NPROC:
            jid, (name, i, ns, n) = queue.pop(0)
            out = os.path.join(tmp, f"r{jid}.json")
            wtmp = os.path.join(tmp, f"w{jid}")
            os.mkdir(wtmp)
            p = ctx.Process(target=job_worker, args=(
                modname, name, i, ns, n, seed, tier, out, soft, wtmp))
            p.start()
            running[jid] = (p, out, name, wtmp)
        time.sleep(0.01)
        for jid in list(running):
            p, out, name, wtmp = running[jid]
            if p.is_alive() and time.time() < hard:
                continue
            if p.is_alive():
                p.kill()
                p.join()
                results.append({"sub": name, "status": "error", "shard": -1,
                                "message": "worker exceeded the hard time limit"})
            else:
                p.join()
                if os.path.exists(out):
                    results.append(json.load(open(out)))
                else:
                    results.append({"sub": name, "status": "error", "shard": -1,
                                    "message": f"worker died, exit code {p.exitcode}"})
            shutil.rmtree(wtmp, ignore_errors=True)
            del running[jid]
    return report(check, results, tier, seed, args, t0)


def report(check, results, tier, seed, args, t0):
    results.sort(key=lambda r: (r["sub"], r["shard"]))
    rc = 0
    nviol = 0
    lines = []
    for entry in load_known():
        if entry.get("property") == check.pid:
            probe = getattr(check, "probes", {}).get(entry["id"])
            if probe is not None and probe():
                lines.append(f"KNOWN-FINDING: property={check.pid} {entry['what']}")
    reported = set()
    for r in results:
        if r["status"] == "violation":
            nviol += 1
            if r["sub"] in reported:
                continue
            reported.add(r["sub"])
            rdir = os.path.join(HERE, "replays", check.pid)
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{r['sub']}-{seed}-{r['shard']}.json")
            with open(path, "w") as f:
                json.dump({"property": check.pid, "sub": r["sub"], "seed": seed,
                           "message": r["message"], "draws": r["draws"],
                           "traceback": r["traceback"]}, f, indent=1)
            lines.append(f"-- {r['sub']}: {r['message']}")
            lines.append(f"VIOLATION property={check.pid} replay={os.path.relpath(path, HERE)}")
            rc = 1
    for r in results:
        if r["status"] in ("error", "flaky"):
            lines.append(f"HARNESS-{r['status'].upper()} property={check.pid} sub={r['sub']}: {r.get('message','')}")
            if r.get("traceback"):
                lines.append(r["traceback"])
            if r.get("draws"):
                lines.append("draws: " + json.dumps(r["draws"])[:1500])
            if rc == 0:
                rc = 2
    subs = {}
    for s in check.subs:
        rs = [r for r in results if r["sub"] == s.name]
        if not rs:
            continue
        keys, tags = set(), {}
        for r in rs:
            keys.update(r.get("keys", ()))
            for t, c in r.get("tags", {}).items():
                tags[t] = tags.get(t, 0) + c
        subs[s.name] = {
            "evaluations": sum(r.get("evaluations", 0) for r in rs),
            "distinct_nontrivial": len(keys),
            "skipped_after_time_budget": sum(r.get("skipped", 0) for r in rs),
            "abandoned_as_too_long": sum(r.get("abandoned", 0) for r in rs),
            "rule": s.rule,
            "classes": dict(sorted(tags.items())),
        }
    samples = []
    for r in results:
        if r.get("samples") and sum(x["sub"] == r["sub"] for x in samples) < 2:
            samples.extend(r["samples"][:2])
    evidence = {
        "property": check.pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(v["evaluations"] for v in subs.values()),
            "distinct_nontrivial": sum(v["distinct_nontrivial"] for v in subs.values()),
            "rule": "cases are drawn by Hypothesis from the generators of each "
            "sub-check (seeded by VERIF_SEED); non-trivial, per sub-check: "
            + "; ".join(f"{k}: {v['rule']}" for k, v in subs.items()),
            "subchecks": subs,
            "samples": samples[:24],
        },
        "assumptions": check.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    if not args.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{check.pid}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
    for ln in lines:
        print(ln)
    ev = evidence["coverage"]
    print(f"{check.pid} [{tier}, seed {seed}]: {ev['evaluations']} cases, "
          f"{ev['distinct_nontrivial']} distinct non-trivial, "
          f"{nviol} violating runs, {evidence['wall_s']} s")
    if os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(subs, indent=1))
    return rc


def replay(check, path):
    from pbt.gen import G
    from pbt.oracle import Violation

    rec = json.load(open(path))
    sub = {s.name: s for s in check.subs}[rec["sub"]]
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    tempfile.tempdir = tmp
    os.chdir(tmp)
    try:
        run_case(sub, G(replay=rec["draws"]))
    except Violation as ex:
        traceback.print_exc()
        print(f"-- {sub.name}: {ex}")
        print(f"VIOLATION property={check.pid} replay={path}")
        return 1
    except Abandoned:
        print("replay: the case takes too long to judge")
        return 0
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        os.chdir(HERE)
        shutil.rmtree(tmp, ignore_errors=True)
    print("replay: property holds on this case")
    return 0
