"""Runs a check: its cases in parallel, replays, evidence, exit status."""
from __future__ import annotations

import dataclasses
import importlib
import json
import multiprocessing
import os
import random
import re
import signal
import subprocess
import sys
import time
import traceback

from . import boot
from . import engine, patches

REPLAYS = os.path.join(boot.VERIF, "evidence", "replays")
KNOWN = os.path.join(boot.VERIF, "known_findings.txt")
PATH_LIMIT = 90  # seconds for one path
REPLAY_LIMIT = 240


@dataclasses.dataclass
class Case:
    name: str
    fn: object
    labels: tuple = ()
    decimal_module: bool = False
    validate_every: int = 25
    deadline: float = 600.0
    timeout_ms: int = 20000
    max_paths: int = 400000


class PathTimeout(engine.Steer):
    pass


def _alarm(*_):
    raise PathTimeout()


def load_known():
    """key -> (property, description) of the findings on file."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def write_replay(prop, case, violation):
    os.makedirs(REPLAYS, exist_ok=True)
    safe = re.sub(r"[^A-Za-z0-9_.-]+", "_", case)[:60]
    path = os.path.join(REPLAYS, f"{prop}-{safe}-{os.getpid()}-{int(time.time()*1000)%10**9}.json")
    with open(path, "w") as fh:
        json.dump(
            {
                "property": prop,
                "case": case,
                "tier": os.environ.get("VERIF_TIER", "quick"),
                "message": violation.message,
                "assignment": violation.assignment,
            },
            fh,
            indent=1,
        )
    return path


def run_replay(path):
    """Run the counterexample on the real code in a fresh process."""
    env = dict(os.environ)
    try:
        r = subprocess.run(
            [sys.executable, os.path.join(boot.VERIF, "run.py"), "--replay", path],
            capture_output=True,
            text=True,
            timeout=REPLAY_LIMIT,
            env=env,
            cwd=boot.VERIF,
        )
    except subprocess.TimeoutExpired:
        return True, "the real code gives no answer on this input"
    for line in r.stdout.splitlines():
        if line.startswith("REPRODUCED"):
            return True, line
        if line.startswith("NOT-REPRODUCED"):
            return False, line
    return False, (r.stdout + r.stderr)[-800:]


class Caught(Exception):
    """An exception that escaped a harness, turned into a violation."""


def guard(fn, conc):
    """Harness exceptions are claims too: one that escapes is a violation (to be
    confirmed by replay), and its type is part of the message."""

    def run(ctx):
        signal.alarm(PATH_LIMIT)
        try:
            return fn(ctx)
        except engine.Steer as e:
            signal.alarm(0)
            if isinstance(e, PathTimeout):
                a = ctx.a if conc else ctx.assignment()
                raise engine.Violated("no answer within %d s" % PATH_LIMIT, a)
            raise
        except RecursionError as e:
            signal.alarm(0)
            a = ctx.a if conc else ctx.assignment()
            raise engine.Violated(f"unexpected {type(e).__name__}", a)
        except Exception as e:
            signal.alarm(0)
            a = ctx.a if conc else ctx.assignment()
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:])
            raise engine.Violated(
                f"unexpected {type(e).__name__}: {str(e)[:300]} at {where}", a
            )
        finally:
            signal.alarm(0)

    return run


def run_case(case, prop, seed, tier):
    """-> result dict of one case (in a worker process)."""
    signal.signal(signal.SIGALRM, _alarm)
    sys.setrecursionlimit(20000)
    t0 = time.time()
    log = engine.FunctionLog()
    ctx = engine.SymCtx(
        timeout_ms=case.timeout_ms,
        seed=seed,
        max_paths=case.max_paths,
        deadline=t0 + case.deadline,
    )
    ctx.validate_every = case.validate_every
    res = {"case": case.name, "status": "ok", "detail": "", "replay": None}
    unreproduced = []

    def on_violation(v):
        if v.assignment is None:
            unreproduced.append(v.message + " (no model)")
            return len(unreproduced) > 6
        path = write_replay(prop, case.name, v)
        ok, line = run_replay(path)
        if ok:
            res.update(status="violation", detail=v.message + " | " + line, replay=path)
            return True
        unreproduced.append(f"{v.message} | {line} | {v.assignment}")
        os.unlink(path)
        return len(unreproduced) > 6

    ctx.on_violation = on_violation
    inconclusive = None
    try:
        with patches.installed(case.decimal_module):
            ctx.explore(guard(case.fn, False))
    except engine.Inconclusive as e:
        inconclusive = str(e)
    except Exception:
        inconclusive = "engine: " + traceback.format_exc()[-1500:]
    log.close()
    ctx.stats.functions |= log.seen
    stats = ctx.stats
    if res["status"] == "ok":
        missing = [l for l in case.labels if not stats.labels.get(l)]
        if missing and not inconclusive and not unreproduced:
            inconclusive = f"assertions never reached: {missing}"
    # engine validation: models of explored paths, on the unpatched code
    if res["status"] == "ok":
        for a in ctx.validation[:40]:
            c = engine.ConcCtx(dict(a))
            v = c.explore(guard(case.fn, True))
            stats.replays += 1
            if v is not None:
                vv = engine.Violated(v.message, dict(c.a))
                path = write_replay(prop, case.name, vv)
                ok, line = run_replay(path)
                if ok:
                    res.update(status="violation", detail=v.message, replay=path)
                    break
                inconclusive = inconclusive or f"path model diverges: {v.message} {a}"
    if res["status"] == "ok" and (unreproduced or inconclusive):
        res["status"] = "degraded"
        res["detail"] = inconclusive or unreproduced[0]
        res["unreproduced"] = unreproduced[:3]
    res["stats"] = stats.asdict()
    res["wall_s"] = time.time() - t0
    return res


def enumerate_case(case, prop, seed, tier, res):
    """The code is beyond the encoding here: shrunken concrete domains (in a
    process which has executed nothing symbolically)."""
    signal.signal(signal.SIGALRM, _alarm)
    sys.setrecursionlimit(20000)
    t0 = time.time()
    rng = random.Random(seed)
    n = unconfirmed = 0
    stop = time.time() + (25 if tier == "quick" else 120)
    while n < 3000 and time.time() < stop:
        c = engine.EnumCtx(rng)
        # state which the code keeps between inputs hides what a single one
        # does, so start afresh if that seems to matter
        v = c.explore(guard(case.fn, True)) if unconfirmed < 3 else forked(c, case)
        n += 1
        if v is not None:
            a = v.assignment if unconfirmed >= 3 else dict(c.a)
            path = write_replay(prop, case.name, engine.Violated(v.message, a))
            ok, line = run_replay(path)
            if ok:
                res.update(status="violation", detail=v.message + " | " + line, replay=path)
                break
            os.unlink(path)
            unconfirmed += 1
            if unconfirmed > 12:
                break
    res["enumerated"] = n
    res["wall_s"] += time.time() - t0
    return res


def forked(c, case):
    """One input in a process of its own."""
    seed = c.rng.random()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            c.rng.seed(seed)
            v = c.explore(guard(case.fn, True))
            out = None if v is None else [v.message, dict(c.a)]
            os.write(w, json.dumps(out, default=str).encode()[:60000])
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        chunk = os.read(r, 65536)
        if not chunk:
            break
        data += chunk
    os.close(r)
    os.waitpid(pid, 0)
    try:
        out = json.loads(data or b"null")
    except ValueError:
        out = None
    return None if out is None else engine.Violated(out[0], out[1])


_CASES = None
_ARGS = None


def _worker(task):
    prop, seed, tier = _ARGS
    i, degraded = task
    try:
        if degraded is not None:
            return i, enumerate_case(_CASES[i], prop, seed, tier, degraded)
        return i, run_case(_CASES[i], prop, seed, tier)
    except BaseException:
        return i, {
            "case": _CASES[i].name,
            "status": "error",
            "detail": traceback.format_exc()[-2000:],
            "stats": engine.Stats().asdict(),
            "wall_s": 0,
        }


def warm_up():
    """Load what every case needs before forking (no verdict depends on it)."""

    def late(*_):
        raise PathTimeout()

    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(20)
    try:
        import numpy  # noqa: F401
        from checks import common as c

        s = c.base_system()
        c.define(s, "warm", "2.5 m/s2 @ 3")
        s.add_prefix(c.Prefix(name="kilo", value="1000", symbols=("k",)))
        for a, b in (("warm", "m/s2"), ("km", "1/m"), ("lg(re m)", "km")):
            conv = c.Converter(s.unit(a), s.unit(b))
            conv.convert(2.0)
        s.unit("m") == s.unit("s")
    except (Exception, PathTimeout):
        pass
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def load_check(prop):
    return importlib.import_module("checks." + prop.lower())


def main(prop, tier, seed):
    global _CASES, _ARGS
    t0 = time.time()
    mod = load_check(prop)
    _CASES = list(mod.cases(tier))
    only = os.environ.get("SYMX_CASE")
    if only:
        _CASES = [c for c in _CASES if re.search(only, c.name)]
    _ARGS = (prop, seed, tier)
    warm_up()
    total, results = {}, []
    violation = None
    jobs = int(os.environ.get("SYMX_JOBS", min(8, os.cpu_count() or 1)))
    mp = multiprocessing.get_context("fork")
    tasks = [(i, None) for i in range(len(_CASES))]
    while tasks and violation is None:
        later = []
        with mp.Pool(min(jobs, max(1, len(tasks))), maxtasksperchild=1) as pool:
            for i, r in pool.imap_unordered(_worker, tasks, chunksize=1):
                if r["status"] == "degraded" and "enumerated" not in r:
                    later.append((i, r))
                    continue
                results.append(r)
                engine.merge(total, r["stats"])
                if os.environ.get("SYMX_VERBOSE"):
                    print(
                        f"  {r['case']}: {r['status']} paths={r['stats']['paths']} "
                        f"q={r['stats']['queries']} {r['wall_s']:.1f}s {r['detail'][:600]}",
                        flush=True,
                    )
                if r["status"] == "violation" and violation is None:
                    violation = r
                    pool.terminate()
                    break
        tasks = later
    known = load_known()
    seen = total.get("known", {})
    for key in seen:
        if (prop, key) not in known and violation is None:
            violation = {"detail": f"unlisted finding {key}: {seen[key]}", "replay": "none", "case": key}
    degraded = [r for r in results if r["status"] == "degraded"]
    errors = [r for r in results if r["status"] == "error"]
    write_evidence(mod, prop, tier, seed, t0, total, results, violation, degraded)
    for key, msg in seen.items():
        if (prop, key) in known:
            print(f"KNOWN-FINDING: property={prop} {known[(prop, key)]}")
    if violation is not None:
        print(f"# {violation['case']}: {violation['detail'][:1500]}")
        print(f"VIOLATION property={prop} replay={violation['replay']}")
        return 1
    for r in degraded:
        print(
            f"# DEGRADED {r['case']}: outside the encoding, decided on "
            f"{r.get('enumerated')} concrete inputs only: {r['detail'][:400]}"
        )
    if errors:
        for r in errors:
            print(f"# ERROR {r['case']}: {r['detail']}")
        return 3
    print(
        f"OK property={prop} tier={tier} cases={len(results)} paths={total.get('paths')} "
        f"queries={total.get('queries')} assertions={total.get('assertions')} "
        f"solver_s={total.get('solver_s', 0):.1f} wall_s={time.time()-t0:.1f}"
        + (f" degraded={len(degraded)}" if degraded else "")
    )
    return 0


def write_evidence(mod, prop, tier, seed, t0, total, results, violation, degraded):
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    cov = {
        "states": total.get("paths", 0) + total.get("decisions", 0),
        "transitions": total.get("branches", 0) + total.get("forks", 0),
        "traces_validated_against_impl": total.get("replays", 0),
        "samples": total.get("samples", [])[:12],
        "paths": total.get("paths", 0),
        "infeasible_paths": total.get("infeasible", 0),
        "solver": "z3 " + engine.z3.get_version_string(),
        "queries": total.get("queries", 0),
        "queries_sat": total.get("sat", 0),
        "queries_unsat": total.get("unsat", 0),
        "queries_unknown": total.get("unknown", 0),
        "solver_s": round(total.get("solver_s", 0.0), 3),
        "assertions": total.get("assertions", 0),
        "assertions_discharged": total.get("discharged", 0),
        "assertions_true_without_query": total.get("trivially_true", 0),
        "reachability_witnesses": total.get("witnesses", 0),
        "assertions_reached_by_label": total.get("labels", {}),
        "functions_encoded": total.get("functions", []),
        "bounds": getattr(mod, "BOUNDS", {}).get(tier, ""),
        "outside_the_claim": getattr(mod, "OUTSIDE", []),
        "stubs": getattr(mod, "STUBS", [])
        + [
            "int()/Decimal() of a token holding a symbolic number return that number",
            "the lexer's character stream accepts symbolic characters",
        ],
        "cases": {
            r["case"]: {
                "status": r["status"],
                "paths": r["stats"]["paths"],
                "queries": r["stats"]["queries"],
                "wall_s": round(r["wall_s"], 2),
            }
            for r in results
        },
        "cases_decided_by_solver": sum(r["status"] == "ok" for r in results),
        "cases_degraded_to_enumeration": [
            {"case": r["case"], "why": r["detail"][:500], "inputs": r.get("enumerated", 0)}
            for r in degraded
        ],
        "known_findings_seen": sorted(total.get("known", {})),
    }
    if total.get("notes"):
        cov["notes"] = total["notes"]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": 0 if violation is None else 1,
    }
    with open(os.path.join(boot.VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)


def replay(path):
    signal.signal(signal.SIGALRM, _alarm)
    sys.setrecursionlimit(20000)
    d = json.load(open(path))
    mod = load_check(d["property"])
    tiers = [d.get("tier", "quick"), "thorough", "quick"]
    for tier in tiers:
        for case in mod.cases(tier):
            if case.name == d["case"]:
                ctx = engine.ConcCtx(d["assignment"])
                v = ctx.explore(guard(case.fn, True))
                if v is None:
                    print("NOT-REPRODUCED: the real code behaves on this input")
                    return 0
                print("REPRODUCED " + v.message.replace("\n", " ")[:1500])
                return 1
    print("no such case", d["case"])
    return 2
