"""Runs one property's check: python3-vt -m vp.run <ID>   (VERIF_SEED, VERIF_TIER)."""

import contextlib
import hashlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, "evidence")
CHUNK = {"quick": 500, "thorough": 2000}
WORKERS = 8


def shard_seed(seed, prop, unit, shard):
    blob = ("%d/%s/%s/%d" % (seed, prop, unit, shard)).encode()
    return int.from_bytes(hashlib.blake2b(blob, digest_size=8).digest(), "big")


def plan(spec, tier):
    """[(unit index, shard, examples)], in reporting order."""
    out = []
    for u, unit in enumerate(spec["units_list"]):
        left, shard = unit.examples(tier), 0
        while left > 0:
            n = min(left, CHUNK[tier])
            out.append((u, shard, n))
            left -= n
            shard += 1
    return out


@contextlib.contextmanager
def _without_mutator():
    """The library's mutator copies parts of a case over others and fills what no
    longer fits with the simplest choice, so that a third of all last fields are
    minimal.  Most shards do without it."""
    from hypothesis.internal.conjecture.engine import ConjectureRunner

    name = "generate_mutations_from"
    saved = getattr(ConjectureRunner, name, None)
    if saved is None:
        yield
        return
    setattr(ConjectureRunner, name, lambda self, data: None)
    try:
        yield
    finally:
        setattr(ConjectureRunner, name, saved)


def campaign(judge, strategy, seed, examples, shard=0):
    """Generate `examples` cases; returns (recorder, violation dict or None).

    Exceptions other than Violation are harness errors and propagate.
    """
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.errors import Flaky

    from vp.core import Recorder, Violation

    rec = Recorder()
    last = []

    @hypothesis.seed(seed)
    @settings(
        max_examples=examples,
        deadline=None,
        database=None,
        derandomize=False,
        suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.shrink],
        report_multiple_bugs=False,
        print_blob=False,
        verbosity=hypothesis.Verbosity.quiet,
    )
    @given(strategy)
    def run(case):
        rec.begin()
        try:
            judge(case, rec)
        except Violation as v:
            last[:] = [case, str(v)]
            raise
        rec.end(case)

    try:
        with contextlib.nullcontext() if shard % 3 == 2 else _without_mutator():
            run()
    except Violation:
        pass
    except BaseException as e:
        # inconsistent verdicts on the same case: the code's answer depends on
        # earlier calls.  Only a violation that was actually seen is reported.
        if not (isinstance(e, Flaky) or _has_flaky(e)) or not last:
            raise
    if last:
        return rec, {"case": last[0], "message": last[1]}
    return rec, None


def _has_flaky(e):
    from hypothesis.errors import Flaky

    if isinstance(e, BaseExceptionGroup):
        return any(_has_flaky(x) for x in e.exceptions)
    return isinstance(e, Flaky)


_STATE = {}


def _init(prop, tier, seed, lowest):
    _STATE.update(prop=prop, tier=tier, seed=seed, lowest=lowest)


def _task(job):
    index, (u, shard, examples) = job
    if index > _STATE["lowest"].value:
        return index, "skipped", None
    try:
        from vp.props import PROPS

        spec = PROPS[_STATE["prop"]]
        unit = list(spec["units"]())[u]
        seed = shard_seed(_STATE["seed"], _STATE["prop"], unit.name, shard)
        rec, bad = campaign(spec["judges"][unit.judge], unit.strategy(), seed, examples, shard)
        if bad:
            bad.update(judge=unit.judge, unit=unit.name, shard=shard, seed=seed, examples=examples)
            with _STATE["lowest"].get_lock():
                _STATE["lowest"].value = min(_STATE["lowest"].value, index)
        return index, "done", (unit.name, rec, bad)
    except BaseException:
        return index, "error", traceback.format_exc()


def regressions(prop):
    path = os.path.join(ROOT, "regressions", prop + ".jsonl")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        return [json.loads(line) for line in fh if line.strip()]


def rejudge(prop, judges, rec):
    """Cases that once failed, judged before anything is generated."""
    from vp.core import Violation

    for entry in regressions(prop):
        rec.begin()
        try:
            judges[entry["judge"]](entry["case"], rec)
        except Violation as v:
            return {"judge": entry["judge"], "case": entry["case"], "message": str(v), "unit": "regressions"}
        rec.end(entry["case"])
    return None


def write_replay(prop, bad):
    folder = os.path.join(EVIDENCE, "replays")
    os.makedirs(folder, exist_ok=True)
    tag = hashlib.blake2b(json.dumps(bad, sort_keys=True).encode(), digest_size=4).hexdigest()
    path = os.path.join(folder, "%s-%s.json" % (prop, tag))
    body = {"property": prop, "mode": "case", **bad}
    with open(path, "w") as fh:
        json.dump(body, fh, indent=1, sort_keys=True)
        fh.write("\n")
    return path


def confirm(path):
    """Replay in a fresh process; if the single case is not enough, switch the
    file to re-running the whole recorded sequence of cases."""
    import subprocess

    p = subprocess.run(
        [sys.executable, "-W", "ignore", "-m", "vp.replay", path],
        cwd=ROOT, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
    )
    if p.returncode == 1:
        return
    with open(path) as fh:
        body = json.load(fh)
    body["mode"] = "history"
    with open(path, "w") as fh:
        json.dump(body, fh, indent=1, sort_keys=True)
        fh.write("\n")


def main(argv):
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if tier not in CHUNK:
        raise SystemExit("VERIF_TIER must be quick or thorough")
    t0 = time.monotonic()

    from vp.core import Recorder
    from vp.props import PROPS

    spec = dict(PROPS[prop])
    spec["units_list"] = list(spec["units"]())
    total = Recorder()
    per_unit = {}

    old = Recorder()
    bad = rejudge(prop, spec["judges"], old)

    jobs = list(enumerate(plan(spec, tier)))
    if bad is None:
        ctx = mp.get_context("fork")
        lowest = ctx.Value("q", len(jobs))
        done = {}
        errors = []
        with ctx.Pool(WORKERS, _init, (prop, tier, seed, lowest), maxtasksperchild=1) as pool:
            for index, status, payload in pool.imap_unordered(_task, jobs):
                if status == "error":
                    errors.append(payload)
                    break
                if status == "done":
                    done[index] = payload
                low = lowest.value
                if low < len(jobs) and all(i in done for i in range(low + 1)):
                    break
            pool.terminate()
        if errors:
            sys.stderr.write(errors[0])
            return 2
        for index in sorted(done):
            name, rec, b = done[index]
            if index > lowest.value:
                continue
            total.merge(rec)
            u = per_unit.setdefault(name, [0, 0])
            u[0] += rec.evaluations
            u[1] += rec.calls
            if b and bad is None:
                bad = b

    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": len(total.nontrivial),
            "rule": spec["rule"],
            "samples": total.samples[:8],
            "judged_calls": total.calls,
            "regression_cases": old.evaluations,
            "by_unit": {k: {"cases": v[0], "judged_calls": v[1]} for k, v in sorted(per_unit.items())},
            "classes": dict(sorted(total.buckets.items())),
            "exhaustive": False,
        },
        "assumptions": [
            "The reference model in vp/refmodel.py states the GS1 EPC Tag Data Standard correctly.",
            "Held means no counterexample among the generated cases; it is a search, not a proof.",
        ],
        "wall_s": round(time.monotonic() - t0, 3),
        "violations": 1 if bad else 0,
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, ".%s.tmp" % prop)
    with open(tmp, "w") as fh:
        json.dump(evidence, fh, indent=1)
        fh.write("\n")
    os.replace(tmp, os.path.join(EVIDENCE, prop + ".json"))

    known = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(known):
        with open(known) as fh:
            for line in fh:
                if line.startswith("open: property=%s " % prop):
                    print("KNOWN-FINDING: " + line[len("open: ") :].rstrip("\n"))
    if bad:
        path = write_replay(prop, bad)
        confirm(path)
        print(bad["message"].encode("ascii", "backslashreplace").decode()[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s held: %d cases, %d judged calls" % (prop, total.evaluations, total.calls))
    return 0


if __name__ == "__main__":
    try:
        code = main(sys.argv)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
