"""Runner: python -m harness.run PROPERTY TIER | --replay FILE"""
from __future__ import annotations

import fcntl
import importlib
import json
import os
import pkgutil
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
QUICK_WALL = 420        # soft limit of the generation in the quick tier
THOROUGH_WALL = 3 * 3600
NPROC = int(os.environ.get("VERIF_NPROC") or os.cpu_count() or 4)
FATAL = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL}


def build():
    """Rebuild the extensions from /repo's current working tree."""
    with open("/tmp/.verif_build.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-3000:])
        print("NO ANSWER: /repo does not build", flush=True)
        sys.exit(3)


def quiet_import():
    """Import the package under test without its import-time output."""
    import warnings
    warnings.simplefilter("ignore")
    save = os.dup(1)
    dn = os.open(os.devnull, os.O_WRONLY)
    sys.stdout.flush()
    os.dup2(dn, 1)
    try:
        import flowstab  # noqa: F401
        import flowstab.temporal_network  # noqa: F401
        import flowstab.network_clustering  # noqa: F401
        import flowstab.synth_temp_network  # noqa: F401
        flowstab.set_log_level("ERROR")
        sys.stdout.flush()
    finally:
        os.dup2(save, 1)
        os.close(save)
        os.close(dn)
    import flowstab
    src = os.path.realpath(flowstab.__file__)
    if not src.startswith(os.path.realpath(REPO) + os.sep):
        print(f"NO ANSWER: flowstab is imported from {src}", flush=True)
        sys.exit(3)


def load_properties():
    import harness.props as pkg
    props = {}
    for m in pkgutil.iter_modules(pkg.__path__):
        mod = importlib.import_module("harness.props." + m.name)
        for pid, (rule, subs, assumptions) in getattr(mod, "PROPS", {}).items():
            r, s, a = props.setdefault(pid, ([], [], []))
            r.append(rule)
            s.extend(subs)
            a.extend(assumptions)
    return props


def spawn(fn, log):
    """Run fn() in a forked child with its output sent to the file log."""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        return pid
    code = 4
    try:
        os.setsid()
        fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        dn = os.open(os.devnull, os.O_RDONLY)
        os.dup2(dn, 0)
        code = fn() or 0
    except BaseException:  # noqa: BLE001
        import traceback
        traceback.print_exc()
    finally:
        try:
            sys.stdout.flush()
            sys.stderr.flush()
        except Exception:
            pass
        os._exit(code)


def job_fn(core, sub, seed, n, stop, base, first):
    def fn():
        scratch = base + ".d"
        os.makedirs(scratch, exist_ok=True)
        os.chdir(scratch)
        os.environ["TMPDIR"] = scratch
        tempfile.tempdir = scratch
        import faulthandler
        faulthandler.enable()
        out = core.explore(sub, seed, n, stop, base + ".case", run_examples=first)
        with open(base + ".json.tmp", "w") as f:
            json.dump(out, f)
        os.rename(base + ".json.tmp", base + ".json")
        return 0
    return fn


def single_fn(core, sub, case, base):
    def fn():
        scratch = base + ".d"
        os.makedirs(scratch, exist_ok=True)
        os.chdir(scratch)
        tempfile.tempdir = scratch
        os.environ["TMPDIR"] = scratch
        nt, msg = core.run_case(sub, case)
        with open(base + ".json", "w") as f:
            json.dump({"nontrivial": nt, "message": msg}, f)
        return 0
    return fn


def kill_group(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def run_single(core, sub, case, tmp, timeout=300):
    """Run one case in a child. Returns the failure message or None."""
    base = tempfile.mktemp(prefix="single", dir=tmp)
    pid = spawn(single_fn(core, sub, case, base), base + ".log")
    t0 = time.time()
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() - t0 > timeout:
            kill_group(pid)
            os.waitpid(pid, 0)
            return f"did not terminate within {timeout} s"
        time.sleep(0.02)
    kill_group(pid)
    if os.WIFSIGNALED(st):
        return f"crashed with signal {signal.Signals(os.WTERMSIG(st)).name}"
    if not os.path.exists(base + ".json"):
        return "HARNESS " + open(base + ".log").read()[-1500:]
    with open(base + ".json") as f:
        return json.load(f)["message"]


def write_replay(pid_, sub, case, message, seed, tier):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    from harness import core
    name = f"{pid_}-{sub}-{core.case_hash(core.case_key(case))}.json"
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump({"property": pid_, "sub": sub, "message": message,
                   "seed": seed, "tier": tier, "case": case}, f, indent=1)
    return path


def main_check(prop, tier):
    t_begin = time.time()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    build()
    from harness import core
    quiet_import()
    props = load_properties()
    if prop not in props:
        print(f"NO ANSWER: unknown property {prop}")
        sys.exit(3)
    rules, subs, assumptions = props[prop]
    only = os.environ.get("VERIF_SUB")
    if only:
        subs = [s for s in subs if s.name in only.split(",")]
    thorough = tier == "thorough"
    wall = THOROUGH_WALL if thorough else QUICK_WALL
    wall = float(os.environ.get("VERIF_WALL") or wall)
    mult = float(os.environ.get("VERIF_MULT") or 1)
    stop = time.time() + wall
    tmp = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    errors, failures, results = [], [], []
    try:
        jobs = []
        for sub in subs:
            total = int((sub.thorough if thorough else sub.quick) * mult)
            shards = max(1, sub.shards * (4 if thorough else 1))
            if total == 0:
                shards = 1
            for k in range(shards):
                n = total // shards + (1 if k < total % shards else 0)
                jobs.append((sub, k, n, core.derive_seed(seed, prop, sub.name, k) & ~1 | k & 1))
        # interleave so that every sub-check gets started early
        jobs.sort(key=lambda j: j[1])
        running = {}
        pending = list(jobs)
        failed_subs = set()
        while pending or running:
            while pending and len(running) < NPROC:
                sub, k, n, s = pending.pop(0)
                if sub.name in failed_subs:
                    continue
                base = os.path.join(tmp, f"{sub.name}_{k}")
                pid = spawn(job_fn(core, sub, s, n, stop, base, k == 0), base + ".log")
                running[pid] = (sub, k, base)
            if not running:
                break
            time.sleep(0.05)
            for pid in list(running):
                p, st = os.waitpid(pid, os.WNOHANG)
                sub, k, base = running[pid]
                hung = False
                if not p:
                    cf = base + ".case"
                    if os.path.exists(cf) and \
                            time.time() - os.path.getmtime(cf) > core.CASE_TIMEOUT + 60:
                        kill_group(pid)
                        os.waitpid(pid, 0)
                        hung = True
                    else:
                        continue
                kill_group(pid)
                del running[pid]
                if os.path.exists(base + ".json"):
                    with open(base + ".json") as f:
                        out = json.load(f)
                    results.append((sub, out))
                    if out["failure"]:
                        failures.append((sub, out["failure"]["case"],
                                         out["failure"]["message"]))
                        failed_subs.add(sub.name)
                elif hung or os.WIFSIGNALED(st):
                    try:
                        case = json.load(open(base + ".case"))
                    except Exception:
                        errors.append(f"{sub.name}: worker died without a case")
                        continue
                    msg = run_single(core, sub, case, tmp)
                    if msg is None and not hung and \
                            signal.Signals(os.WTERMSIG(st)) in FATAL:
                        msg = "crashed with signal " + \
                            signal.Signals(os.WTERMSIG(st)).name + \
                            " (after the preceding cases of the run)"
                    if msg is None or msg.startswith("HARNESS"):
                        errors.append(f"{sub.name}: worker died or hung: {msg}")
                    else:
                        failures.append((sub, case, msg))
                        failed_subs.add(sub.name)
                else:
                    log = open(base + ".log").read()[-3000:]
                    errors.append(f"{sub.name}: {log}")
                shutil.rmtree(base + ".d", ignore_errors=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    known = load_known(prop)
    violations = []
    for sub, case, msg in failures:
        if any(k.get("sub") == sub.name and k.get("case") == case for k in known):
            continue
        path = write_replay(prop, sub.name, case, msg, seed, tier)
        violations.append((sub.name, path, msg))
    for k in known:
        sub = next((s for s in subs if s.name == k.get("sub")), None)
        if sub is None:
            continue
        with tempfile.TemporaryDirectory() as t2:
            msg = run_single(core, sub, k["case"], t2)
        if msg is not None:
            print(f"KNOWN-FINDING: property={prop} {k['what']}", flush=True)

    distinct = set()
    evals = 0
    samples = []
    per_sub = {}
    for sub, out in results:
        evals += out["evaluations"]
        distinct.update(sub.name + h for h in out["nontrivial"])
        d = per_sub.setdefault(sub.name, {"evaluations": 0, "distinct_nontrivial": set(),
                                          "skipped": 0})
        d["evaluations"] += out["evaluations"]
        d["distinct_nontrivial"].update(out["nontrivial"])
        d["skipped"] += out["skipped"]
        if len([s for s in samples if s["sub"] == sub.name]) < 3:
            samples += [{"sub": sub.name, "case": c} for c in out["samples"][-2:]]
    for d in per_sub.values():
        d["distinct_nontrivial"] = len(d["distinct_nontrivial"])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(distinct),
            "rule": " ".join(rules),
            "samples": samples[:24],
            "per_subcheck": per_sub,
            "subchecks": {s.name: s.describe for s in subs},
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t_begin, 2),
        "violations": [{"sub": n, "replay": p, "message": m} for n, p, m in violations],
        "errors": errors,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)

    for name, d in per_sub.items():
        print(f"{prop} {name}: {d['evaluations']} cases, "
              f"{d['distinct_nontrivial']} distinct non-trivial"
              + (f", {d['skipped']} skipped (time)" if d["skipped"] else ""))
    print(f"{prop}: {evals} cases, {len(distinct)} distinct non-trivial, "
          f"{ev['wall_s']} s")
    for n, p, m in violations:
        print(f"  {n}: {m}")
    for n, p, m in violations:
        print(f"VIOLATION property={prop} replay={p}", flush=True)
    if violations:
        sys.exit(1)
    if errors:
        for e in errors:
            print("ERROR", e, file=sys.stderr)
        sys.exit(2)
    sys.exit(0)


def load_known(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("findings", []) if k["property"] == prop]


def main_replay(path):
    with open(path) as f:
        rec = json.load(f)
    build()
    from harness import core
    quiet_import()
    props = load_properties()
    sub = next(s for s in props[rec["property"]][1] if s.name == rec["sub"])
    with tempfile.TemporaryDirectory() as tmp:
        msg = run_single(core, sub, rec["case"], tmp)
    if msg is None:
        print("holds:", path)
        sys.exit(0)
    print(f"  {rec['sub']}: {msg}")
    print(f"VIOLATION property={rec['property']} replay={path}")
    sys.exit(1)


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        main_replay(sys.argv[2])
    else:
        main_check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick")
