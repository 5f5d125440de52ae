"""Seeded search driver.

The driver process loads the code under test, compiles its kernels (warm-up) and then acts as
a zygote: every simulated run executes in a fresh child forked from it, so that a run's outcome
depends on its spec only (no leakage between runs), and so that crashes and hangs of the code
under test are observations, not failures of the search.
"""

import hashlib
import importlib
import json
import os
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback
from pathlib import Path

from .core import Ctx, HarnessError, Rng, Violation, derive

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("OASIM_REPO", "/repo"))
RUN_TIMEOUT = 90.0


# --------------------------------------------------------------------------- one run


def classify_exception(e):
    frames = traceback.extract_tb(e.__traceback__)
    repo = [f for f in frames if f.filename.startswith(str(REPO) + "/openamundsen")]
    where = None
    if repo:
        f = repo[-1]
        where = f"{Path(f.filename).name}:{f.name}"
    return where


def execute(scn, spec, scratch, keep_log=False):
    """Run one spec in this process.  Returns a JSON-able result."""
    ctx = Ctx(Path(scratch), keep_log=keep_log)
    res = {"status": "ok"}
    try:
        scn.run(spec, ctx)
    except Violation as v:
        res = {"status": "violation", "kind": v.kind, "message": v.message, "info": v.info}
    except HarnessError as e:
        res = {"status": "harness", "message": traceback.format_exc()}
    except Exception as e:  # noqa: BLE001
        where = classify_exception(e)
        tb = traceback.format_exc()
        res = {
            "status": "violation",
            "kind": f"exception:{type(e).__name__}",
            "message": f"unexpected {type(e).__name__} at {where}: {str(e)[:300]}",
            "info": {"where": where, "traceback": tb[-3000:]},
        }
    out = ctx.result()
    out["states"] = sorted(out["states"])
    out.update(res)
    if keep_log:
        out["trace"] = ctx.log[:4000]
    return out


class Pool:
    """Forks one child per job; results come back over pipes."""

    def __init__(self, scn, root, width):
        self.scn, self.root, self.width = scn, Path(root), width
        self.live = {}
        self.n = 0

    def start(self, key, spec, keep_log=False, timeout=None):
        self.n += 1
        d = self.root / f"run{self.n}"
        d.mkdir()
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                os.close(r)
                for other in self.live.values():
                    os.close(other["fd"])
                os.environ["TMPDIR"] = str(d)
                tempfile.tempdir = str(d)
                os.chdir(d)
                res = execute(self.scn, spec, d, keep_log)
                data = json.dumps(res, default=_json_default).encode()
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        self.live[pid] = {
            "key": key,
            "fd": r,
            "buf": b"",
            "t0": time.monotonic(),
            "timeout": timeout or getattr(self.scn, "RUN_TIMEOUT", RUN_TIMEOUT),
            "dir": d,
        }

    def poll(self, wait=0.2):
        """Return list of (key, result) of finished children."""
        done = []
        fds = {j["fd"]: pid for pid, j in self.live.items()}
        if not fds:
            return done
        ready, _, _ = select.select(list(fds), [], [], wait)
        now = time.monotonic()
        for fd in ready:
            pid = fds[fd]
            j = self.live[pid]
            data = os.read(fd, 1 << 20)
            if data:
                j["buf"] += data
                continue
            _, status = os.waitpid(pid, 0)
            done.append((j["key"], self._finish(pid, j, status)))
        for pid, j in list(self.live.items()):
            if now - j["t0"] > j["timeout"]:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                done.append((j["key"], self._finish(pid, j, None)))
        return done

    def _finish(self, pid, j, status):
        os.close(j["fd"])
        del self.live[pid]
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        shutil.rmtree(j["dir"], ignore_errors=True)
        if status is None:
            return {
                "status": "violation",
                "kind": "hang",
                "message": f"no progress: run did not finish within {j['timeout']:.0f} s",
                "info": {},
            }
        if os.WIFSIGNALED(status):
            sig = os.WTERMSIG(status)
            return {
                "status": "violation",
                "kind": f"died:{signal.Signals(sig).name}",
                "message": f"process died from signal {sig} inside the run",
                "info": {},
            }
        try:
            return json.loads(j["buf"])
        except ValueError:
            return {
                "status": "violation",
                "kind": "died",
                "message": f"process exited with status {os.WEXITSTATUS(status)} without a result",
                "info": {},
            }

    def run_all(self, jobs, keep_log=False):
        """Run jobs [(key, spec)] to completion; dict key -> result."""
        jobs = list(jobs)[::-1]
        out = {}
        while jobs or self.live:
            while jobs and len(self.live) < self.width:
                k, s = jobs.pop()
                self.start(k, s, keep_log)
            for k, res in self.poll():
                out[k] = res
        return out

    def stop(self):
        for pid, j in list(self.live.items()):
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
            os.close(j["fd"])
            shutil.rmtree(j["dir"], ignore_errors=True)
        self.live.clear()


def _json_default(o):
    import numpy as np

    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    return str(o)


# --------------------------------------------------------------------------- search


def module_file(prop):
    for p in sorted((VERIF / "sim" / "props").glob("p*.py")):
        if p.stem.split("_")[0].upper() == prop.upper():
            return p
    raise SystemExit(f"unknown property {prop}")


def load(prop):
    return importlib.import_module(f"sim.props.{module_file(prop).stem}")


def wants_preload(prop):
    """Whether the property's scenario needs the file-system seam preloaded (decided from its
    text: nothing may be imported before the process is re-executed)."""
    return "\nPRELOAD = True\n" in module_file(prop).read_text()


def replay_property(path):
    return json.loads(Path(path).read_text())["property"]


def spec_for(scn, base_seed, index, tier):
    seed = derive(scn.ID, base_seed, index)
    spec = scn.gen(Rng(scn.ID, seed), index, tier)
    spec["seed"] = seed
    return json.loads(json.dumps(spec, default=_json_default))


def minimise(scn, pool, spec, res, max_runs, deadline):
    from . import shrink

    cand_fn = getattr(scn, "shrink", None) or shrink.candidates
    runs = 0
    improved = True
    kind = res["kind"]
    while improved and runs < max_runs and time.monotonic() < deadline:
        improved = False
        batch = []
        it = cand_fn(spec, res.get("info"))
        while True:
            batch = []
            for c in it:
                if c is not None:
                    batch.append(c)
                if len(batch) >= pool.width:
                    break
            if not batch or runs >= max_runs or time.monotonic() > deadline:
                break
            outs = pool.run_all([(i, c) for i, c in enumerate(batch)])
            runs += len(batch)
            for i in range(len(batch)):
                o = outs[i]
                if o["status"] == "violation" and o["kind"] == kind:
                    spec, res = batch[i], o
                    improved = True
                    break
            if improved:
                break
    return spec, res, runs


def load_findings():
    """Known findings (never written at run time)."""
    path = VERIF / "known_findings.jsonl"
    out = []
    if path.exists():
        for line in path.read_text().splitlines():
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


def match_finding(findings, prop, res):
    for f in findings:
        if f.get("status") != "known" or f["property"] != prop:
            continue
        m = f["match"]
        if m.get("kind") != res["kind"]:
            continue
        if all(str(res.get("info", {}).get(k)) == str(v) for k, v in m.get("info", {}).items()):
            return f
    return None


def check(prop, tier, base_seed, width=None, n=None, cap=None, verbose=False):
    t_start = time.monotonic()
    root = Path(tempfile.mkdtemp(prefix=f"oasim-{prop}-"))
    os.environ["NUMBA_CACHE_DIR"] = str(root / "numba")  # before anything imports numba
    scn = load(prop)
    width = width or int(os.environ.get("OASIM_WORKERS", min(8, os.cpu_count() or 1)))
    n = n or scn.N[tier]
    cap = cap or (getattr(scn, "CAP", {}).get(tier) or {"quick": 420, "thorough": 3000}[tier])
    os.environ.setdefault("TMPDIR", str(root))
    rc = 2
    try:
        (root / "runs").mkdir()
        setup = getattr(scn, "setup", None)
        if setup:
            setup(root)
        scn.warm(root)
        t_warm = time.monotonic() - t_start
        rc = _search(scn, prop, tier, base_seed, width, n, cap, root, t_start, t_warm, verbose)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return rc


def _search(scn, prop, tier, base_seed, width, n, cap, root, t_start, t_warm, verbose):
    pool = Pool(scn, root / "runs", width)
    findings = load_findings()
    agg = {"faults": {}, "probes": {}, "states": set(), "sim_seconds": 0.0, "steps": 0,
           "evaluations": 0}
    results = {}
    known_hits = {}
    failing = None
    harness = None
    nxt = 0
    digests = {}
    samples = []
    deadline = t_start + cap
    t_search = time.monotonic()
    capped = False
    while (nxt < n and failing is None and not capped) or pool.live:
        while nxt < n and failing is None and not capped and len(pool.live) < width:
            if time.monotonic() > deadline:
                capped = True
                break
            pool.start(nxt, spec_for(scn, base_seed, nxt, tier))
            nxt += 1
        for idx, res in pool.poll():
            results[idx] = res["status"]
            if res["status"] == "harness":
                harness = (idx, res)
                failing = failing or None
                break
            for k in ("faults", "probes"):
                for a, b in res.get(k, {}).items():
                    agg[k][a] = agg[k].get(a, 0) + b
            agg["states"].update(res.get("states", ()))
            for k in ("sim_seconds", "steps", "evaluations"):
                agg[k] += res.get(k, 0)
            if res.get("digest"):
                digests[idx] = res["digest"]
            if verbose and res["status"] != "ok":
                print(idx, res["kind"], res["message"][:300], file=sys.stderr)
                if verbose > 1:
                    print(res.get("info", {}).get("traceback", ""), file=sys.stderr)
            if res["status"] == "violation":
                f = match_finding(findings, prop, res)
                if f:
                    known_hits[f["id"]] = known_hits.get(f["id"], 0) + 1
                    results[idx] = "known"
                elif os.environ.get("OASIM_KEEP_GOING"):
                    pass
                elif failing is None or idx < failing[0]:
                    failing = (idx, res)
            elif len(samples) < 3:
                samples.append({"run": idx, "seed": derive(scn.ID, base_seed, idx),
                                "steps": res.get("steps"), "digest": res.get("digest")})
        if harness:
            break
    if harness:
        pool.stop()
        print(f"HARNESS-ERROR property={prop} run={harness[0]}\n{harness[1]['message']}",
              file=sys.stderr)
        return 2
    wall_search = max(1e-6, time.monotonic() - t_search)
    violations = []
    rc = 0
    if failing is not None:
        idx, res = failing
        spec = spec_for(scn, base_seed, idx, tier)
        rc, rec = _report(scn, prop, pool, spec, res, idx, base_seed, tier, findings)
        if rec:
            violations.append(rec)
    for f in findings:
        if f.get("status") == "known" and f["property"] == prop:
            print(f"KNOWN-FINDING: property={prop} {f['what']} (hit in {known_hits.get(f['id'], 0)} "
                  f"of {len(results)} runs)")
    runs = len(results)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": base_seed,
        "level": scn.LEVEL,
        "coverage": {
            "evaluations": max(1, agg["evaluations"]) if runs else 0,
            "distinct_nontrivial": len(agg["states"]) or len(set(digests.values())),
            "rule": scn.RULE,
            "samples": samples,
            "simulated_runs": runs,
            "runs_planned": n,
            "wall_cap_reached": capped,
            "distinct_run_digests": len(set(digests.values())),
            "search_digest": hashlib.blake2b(
                json.dumps(sorted(digests.items())).encode(), digest_size=12).hexdigest(),
            "seeds_per_hour": round(runs / wall_search * 3600),
            "warmup_s": round(t_warm, 1),
            "model_steps": agg["steps"],
            "simulated_days": round(agg["sim_seconds"] / 86400.0, 1),
            "faults_injected": dict(sorted(agg["faults"].items())),
            "probes": dict(sorted(agg["probes"].items())),
            "distinct_states_measure": getattr(scn, "STATES", "hash of the abstract step state"),
            "components_real": scn.REAL,
            "components_stub": scn.STUB,
            "known_findings_hit": known_hits,
        },
        "assumptions": scn.ASSUMPTIONS,
        "wall_s": round(time.monotonic() - t_start, 2),
        "violations": len(violations),
    }
    need = getattr(scn, "REQUIRED_PROBES", ())
    missing = [p for p in need if not agg["probes"].get(p)]
    ev["coverage"]["probes_never_hit"] = missing
    d = VERIF / "evidence"
    d.mkdir(exist_ok=True)
    (d / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=_json_default) + "\n")
    if rc == 0 and violations:
        rc = 1
    print(f"{prop} {tier}: {runs} runs, {agg['steps']} steps, {agg['evaluations']} conditions, "
          f"{len(agg['states'])} states, {wall_search:.1f} s search, "
          f"{time.monotonic() - t_start:.1f} s total, {len(violations)} violation(s)"
          + (f", probes never hit: {missing}" if missing else ""))
    return rc


def _report(scn, prop, pool, spec, res, idx, base_seed, tier, findings):
    # confirm
    pool_root = pool
    if res["kind"] == "hang" or res["kind"].startswith("died"):
        again = pool.run_all([(0, spec)])[0]
        if again["status"] != "violation":
            print(f"note: run {idx} ({res['kind']}) did not repeat: treated as an environment "
                  "flake", file=sys.stderr)
            return 0, None
    orig_kind = res["kind"]
    hang = res["kind"] == "hang"
    max_runs = 16 if hang else {"quick": 240, "thorough": 800}[tier]
    deadline = time.monotonic() + {"quick": 75, "thorough": 300}[tier]
    mspec, mres, mruns = minimise(scn, pool_root, spec, res, max_runs, deadline)
    a = pool.run_all([(0, mspec)], keep_log=True)[0]
    b = pool.run_all([(0, mspec)], keep_log=True)[0]
    repro = (
        a["status"] == b["status"] == "violation"
        and a["kind"] == b["kind"] == orig_kind
        and a.get("digest") == b.get("digest")
        and a.get("message") == b.get("message")
    )
    if not repro:
        mspec, mres = spec, res
        a = pool.run_all([(0, mspec)], keep_log=True)[0]
    d = VERIF / "evidence" / "replays"
    d.mkdir(parents=True, exist_ok=True)
    path = d / f"{prop}-{spec['seed']}.json"
    path.write_text(
        json.dumps(
            {
                "property": prop,
                "seed": spec["seed"],
                "run_index": idx,
                "base_seed": base_seed,
                "kind": mres["kind"],
                "message": mres["message"],
                "info": mres.get("info"),
                "digest": a.get("digest"),
                "reproducible": repro,
                "minimisation_runs": mruns,
                "spec": mspec,
                "original_spec": spec,
                "trace": a.get("trace"),
            },
            indent=1,
            default=_json_default,
        )
        + "\n"
    )
    print(f"{prop}: {mres['kind']}: {mres['message']}")
    print(f"VIOLATION property={prop} replay={path}")
    return 1, {"kind": mres["kind"], "message": mres["message"], "replay": str(path)}


def replay(path):
    rec = json.loads(Path(path).read_text())
    root = Path(tempfile.mkdtemp(prefix="oasim-replay-"))
    os.environ["NUMBA_CACHE_DIR"] = str(root / "numba")
    scn = load(rec["property"])
    try:
        (root / "runs").mkdir()
        setup = getattr(scn, "setup", None)
        if setup:
            setup(root)
        scn.warm(root)
        pool = Pool(scn, root / "runs", 1)
        res = pool.run_all([(0, rec["spec"])], keep_log=True)[0]
    finally:
        shutil.rmtree(root, ignore_errors=True)
    for line in (res.get("trace") or [])[-40:]:
        print("  ", line)
    if res["status"] == "violation":
        same = res["kind"] == rec["kind"] and res.get("digest") == rec.get("digest")
        print(f"{res['kind']}: {res['message']}")
        print(f"reproduced={'exactly' if same else 'differently'} digest={res.get('digest')}")
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    print(f"not reproduced: {res['status']} {res.get('message', '')}")
    return 0
