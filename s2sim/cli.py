"""Command line: check, replay, worker, outcomes, selftest.

``check ID`` starts one worker interpreter per slot. Scenario i belongs to slot
i % slots and is a function of (seed, property, slot, i) and the code only.
"""
import gc
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
SLOTS = 8

# scenarios per tier, and a wall-clock cap in seconds for the search
COUNT = {
    "C01": 640, "C02": 400, "C03": 960, "C04": 640, "C05": 720, "C06": 520,
    "C07": 960, "C08": 400, "C09": 360, "C10": 800, "C11": 760, "C12": 360,
}
CAP = {"quick": 240, "thorough": 3000}
SCALE = {"quick": 1, "thorough": 60}
HANG = 150


# ---------------------------------------------------------------- worker side
def _boot():
    from . import boot  # noqa: F401
    from . import ambient, disk, engine, loader, ops, props, sched, seams  # noqa: F401
    import gc

    disk.start()
    loader.Instance()
    disk.wipe()
    gc.collect()
    gc.freeze()
    return props, engine


def _ctx(engine, a, slot):
    return engine.Ctx(slot, a["tier"], a["seed"], a["prop"])


def _scenario(P, ctx, a, i):
    import random

    ctx.i, ctx.k = i, i // a["slots"]
    return P.gen(random.Random(f"{a['seed']}|{a['prop']}|{i}"), ctx)


def execute(P, scn, ctx, engine):
    """Run one scenario; the Violation it raises, or None."""
    from . import disk

    disk.wipe()
    try:
        P.run(scn, ctx)
    except engine.Violation as v:
        ctx.keep.restore()
        return v
    finally:
        ctx.keep.restore()
    return None


def worker(a):
    props, engine = _boot()
    P = props.PROPS[a["prop"]]
    ctx = _ctx(engine, a, a["slot"])
    t0 = time.time()
    done, samples = 0, []
    say = lambda *x: print(json.dumps(x), flush=True)  # noqa: E731
    first = {}
    for i in range(a["slot"], a["count"], a["slots"]):
        if time.time() - t0 > a["cap"]:
            break
        if i in a.get("skip", ()):
            continue
        say("s", i)
        v = None
        scn = None
        try:
            scn = _scenario(P, ctx, a, i)
        except engine.Violation as e:  # the call alone already misbehaves
            v = e
            scn = {"generate": i}
        if a["prop"] == "C12" and i // a["slots"] % 15 == 14:
            gc.collect()
            gc.freeze()
        n = ctx.steps
        if v is None:
            v = execute(P, scn, ctx, engine)
        done += 1
        if v is not None:
            say("v", i, scn, v.kind, v.text)
            break
        if i // a["slots"] in (0, 1, 5):
            first[i] = (scn, ctx.steps - n)
        if len(samples) < 2 and i // a["slots"] in (1, 4):
            samples.append(scn)
    again = bad = 0
    if time.time() - t0 < a["cap"]:
        keepers = (ctx.faults.copy(), ctx.stats.copy(), ctx.steps)
        for i, (scn, n) in first.items():
            if scn.get("kind") == "xproc":
                continue
            before = ctx.steps
            v = execute(P, scn, ctx, engine)
            again += 1
            if v is not None or ctx.steps - before != n:
                bad += 1
        ctx.faults, ctx.stats, ctx.steps = keepers
    from . import sched, seams

    say("e", dict(
        done=done, steps=ctx.steps, stats=dict(ctx.stats), faults=dict(ctx.faults),
        sites=[sched.SITE_NAMES[x] for x in ctx.sites], inter=sorted(ctx.inter),
        distinct=[h.hex() for h in ctx.distinct], samples=samples, wall=time.time() - t0,
        again=again, mismatched=bad, served=seams.SERVED,
    ))
    return 0


def replay_worker(a):
    """Execute one recorded scenario (or a slot's history up to it)."""
    props, engine = _boot()
    P = props.PROPS[a["prop"]]
    ctx = _ctx(engine, a, a["slot"])
    if a.get("history"):
        v = None
        for i in range(a["slot"], a["index"] + 1, a["slots"]):
            try:
                scn = _scenario(P, ctx, a, i)
            except engine.Violation as e:
                v = e
                break
            v = execute(P, scn, ctx, engine)
            if v is not None:
                break
    elif "generate" in a["scenario"]:
        v = None
        try:
            _scenario(P, ctx, a, a["scenario"]["generate"])
        except engine.Violation as e:
            v = e
    else:
        _scenario_ctx(ctx, a)
        v = execute(P, a["scenario"], ctx, engine)
        if v is not None and a.get("minimise"):
            from . import shrink

            a["scenario"], v = shrink.minimise(
                P, a["scenario"], v, lambda s: _try(P, s, ctx, engine), time.time() + a["minimise"]
            )
    print(json.dumps(dict(violation=None if v is None else [v.kind, v.text], scenario=a["scenario"])), flush=True)
    return 0


def _scenario_ctx(ctx, a):
    ctx.i, ctx.k = a["index"], a["index"] // a["slots"]


def _try(P, s, ctx, engine):
    try:
        return execute(P, s, ctx, engine)
    except Exception:
        return None


def outcomes():
    """Child of the C08 cross-process scenarios: outcomes of a list of calls."""
    import pickle

    scn = json.loads(sys.stdin.read())
    fd = os.dup(1)
    os.dup2(2, 1)
    props, engine = _boot()
    ctx = engine.Ctx(0)
    out = [ctx.solo(s, scn["jit"])[0] for s in scn["specs"]]
    os.write(fd, b"")
    with os.fdopen(fd, "wb") as fh:
        pickle.dump(out, fh)
    return 0


# ---------------------------------------------------------------- parent side
class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="s2sim-")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def _env(d, hashseed=0):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("JAX_", "XLA_", "PYTHON"))}
    w = os.path.join(d, f"w{time.monotonic_ns()}")
    os.makedirs(os.path.join(w, "tmp"))
    for k in [k for k in e if k.startswith("XDG_")]:
        del e[k]
    e.update(S2SIM_HOME=w, HOME=w, TMPDIR=os.path.join(w, "tmp"), PYTHONHASHSEED=str(hashseed), PYTHONPATH=ROOT, PYTHONDONTWRITEBYTECODE="1")
    return e, w


def spawn(kind, args, d, hashseed=0):
    e, w = _env(d, hashseed)
    err = open(os.path.join(w, "tmp", "stderr"), "wb")
    p = subprocess.Popen(
        [PY, "-m", "s2sim", kind], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, env=e, cwd=w,
        start_new_session=True,
    )
    err.close()
    p.stdin.write(json.dumps(args).encode())
    p.stdin.close()
    p.errfile = os.path.join(w, "tmp", "stderr")
    return p


def kill(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    p.wait()


def errtail(p, n=600):
    try:
        with open(p.errfile, "rb") as fh:
            return fh.read().decode(errors="replace")[-n:]
    except OSError:
        return ""


def replay_run(a, d, timeout=400):
    """(violation or None, scenario, hung?)"""
    p = spawn("replayworker", a, d)
    try:
        out, _ = _communicate(p, timeout)
    except subprocess.TimeoutExpired:
        kill(p)
        return ["no-progress", f"the scenario does not end within {timeout} s of real time"], a.get("scenario"), True
    lines = [x for x in out.decode().splitlines() if x.startswith("{")]
    if p.returncode or not lines:
        return ["crash", f"the interpreter died (exit {p.returncode}): {errtail(p)}"], a.get("scenario"), True
    r = json.loads(lines[-1])
    return r["violation"], r["scenario"], False


def _communicate(p, timeout):
    box = []
    t = threading.Thread(target=lambda: box.append(p.stdout.read()), daemon=True)
    t.start()
    t.join(timeout)
    if t.is_alive():
        raise subprocess.TimeoutExpired("replay", timeout)
    p.wait(30)
    return box[0], None


def known(prop):
    """Listed, unrepaired findings: (property, kind, text fragment, note)."""
    out = []
    try:
        with open(os.path.join(ROOT, "known_findings.txt")) as fh:
            for ln in fh:
                if ln.startswith("known: property="):
                    f = ln[len("known: property="):].rstrip("\n").split(" | ")
                    if f[0] == prop and len(f) >= 4:
                        out.append(f)
    except OSError:
        pass
    return out


def check(prop):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in SCALE:
        tier = "quick"
    t0 = time.time()
    count = int(os.environ.get("S2SIM_COUNT", COUNT[prop] * SCALE[tier]))
    cap = float(os.environ.get("S2SIM_CAP", CAP[tier]))
    base = dict(prop=prop, seed=seed, tier=tier, slots=SLOTS, count=count, cap=cap)
    kn = known(prop)
    found, res, problems, hits = None, [], [], set()
    with Scratch() as d:
        q = queue.Queue()
        procs = {}
        last = {}

        def start(slot, skip):
            p = spawn("worker", dict(base, slot=slot, skip=sorted(skip), cap=max(5.0, cap - (time.time() - t0))), d)
            procs[slot] = p
            last[slot] = [time.time(), None]

            def rd():
                for ln in p.stdout:
                    if ln.startswith(b"["):
                        q.put((slot, p, json.loads(ln)))
                q.put((slot, p, None))

            threading.Thread(target=rd, daemon=True).start()

        skips = {s: set() for s in range(SLOTS)}
        strikes = {s: 0 for s in range(SLOTS)}
        for s in range(SLOTS):
            start(s, skips[s])
        live = set(range(SLOTS))
        ended, again = set(), set()
        while live and found is None:
            try:
                slot, p, m = q.get(timeout=5)
            except queue.Empty:
                slot = None
            if slot is not None and p is procs[slot]:
                last[slot][0] = time.time()
                if m is None:
                    p.wait()
                    if slot in again:
                        again.discard(slot)
                        ended.discard(slot)
                        start(slot, skips[slot])
                    elif slot in ended:
                        live.discard(slot)
                    else:
                        found = trouble(base, d, slot, p, last, strikes, skips, problems, "crash")
                        if found is None and strikes[slot] <= 2:
                            start(slot, skips[slot])
                        elif found is None:
                            live.discard(slot)
                elif m[0] == "s":
                    last[slot][1] = m[1]
                elif m[0] == "v":
                    v = dict(slot=slot, index=m[1], scenario=m[2], kind=m[3], text=m[4])
                    k = [f for f in kn if f[1] == m[3] and f[2] in m[4]]
                    if k:
                        hits.add(k[0][3])
                    else:
                        found = confirm(base, d, v, problems)
                        now = time.time()
                        for x in last.values():
                            x[0] = max(x[0], now)
                    if found is None:
                        skips[slot].update(range(slot, m[1] + 1, SLOTS))
                        strikes[slot] += 1
                        if strikes[slot] <= 6:
                            again.add(slot)
                elif m[0] == "e":
                    res.append(m[1])
                    ended.add(slot)
            for s in list(live):
                if s not in ended and time.time() - last[s][0] > HANG and found is None:
                    kill(procs[s])
                    found = trouble(base, d, s, procs[s], last, strikes, skips, problems, "hang")
                    if found is None and strikes[s] <= 2:
                        start(s, skips[s])
                    elif found is None:
                        live.discard(s)
        for p in procs.values():
            kill(p)
    for n in sorted(hits):
        print(f"KNOWN-FINDING: property={prop} {n}")
    path = None
    if found is not None:
        path = write_replay(base, found)
    evidence(base, res, found, path, time.time() - t0, problems)
    if found is not None:
        print(f"{prop}: {found['kind']}: {found['text']}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if not res:
        print(f"{prop}: no worker finished: {problems[:3]}")
        return 2
    print(f"{prop}: held on {sum(r['done'] for r in res)} simulated runs in {time.time() - t0:.0f} s")
    return 0


def trouble(base, d, slot, p, last, strikes, skips, problems, what):
    """A worker hung or died: decide whether the scenario is to blame."""
    i = last[slot][1]
    strikes[slot] += 1
    problems.append(f"slot {slot}: {what} at scenario {i}: {errtail(p, 300)}")
    if i is None:
        return None
    skips[slot].update(range(slot, i + 1, base["slots"]))
    a = dict(base, slot=slot, index=i, scenario={"generate": i}, history=False)
    a["run_generated"] = True
    v, scn, bad = replay_run(dict(a, history=True, only=True), d, 300)
    if v is not None and v[0] in ("crash", "no-progress") and bad:
        return dict(slot=slot, index=i, scenario={"history": True}, kind=v[0] + "!", text=v[1], history=True)
    if v is not None:
        return dict(slot=slot, index=i, scenario={"history": True}, kind=v[0], text=v[1], history=True)
    return None


def confirm(base, d, found, problems):
    """Reproduce in a fresh process and minimise; fall back to the history."""
    a = dict(base, slot=found["slot"], index=found["index"], scenario=found["scenario"])
    if not found.get("history"):
        v, scn, _ = replay_run(dict(a, minimise=60), d)
        if v is not None:
            v2, _, _ = replay_run(dict(a, scenario=scn), d)
            if v2 is not None:
                return dict(found, scenario=scn, kind=v2[0], text=v2[1])
            v3, _, _ = replay_run(a, d)
            if v3 is not None:
                return dict(found, kind=v3[0], text=v3[1])
    v, _, _ = replay_run(dict(a, history=True), d, 500)
    if v is not None:
        return dict(found, history=True, kind=v[0], text=v[1])
    problems.append(f"not reproduced: {found['kind']}: {found['text']}")
    return None


def write_replay(base, found):
    dd = os.path.join(ROOT, "replays")
    os.makedirs(dd, exist_ok=True)
    path = os.path.join(dd, f"{base['prop']}-{base['seed']}-{found['index']}.json")
    with open(path, "w") as fh:
        json.dump(dict(base, slot=found["slot"], index=found["index"], scenario=found["scenario"], history=bool(found.get("history")), violation=[found["kind"], found["text"]]), fh, indent=1)
    return path


def replay(path):
    with open(path) as fh:
        a = json.load(fh)
    with Scratch() as d:
        v, _, _ = replay_run(a, d, 600)
    if v is None:
        print(f"replay of {path}: the property holds")
        return 0
    print(f"{a['prop']}: {v[0]}: {v[1]}")
    print(f"VIOLATION property={a['prop']} replay={path}")
    return 1


LEVEL = {}


def evidence(base, res, found, path, wall, problems):
    from collections import Counter

    faults, stats, sites, inter, distinct, served = Counter(), Counter(), set(), set(), set(), Counter()
    for r in res:
        faults.update(r["faults"])
        stats.update(r["stats"])
        sites.update(r["sites"])
        inter.update(r["inter"])
        distinct.update(r["distinct"])
        served.update(r["served"])
    done = sum(r["done"] for r in res)
    steps = sum(r["steps"] for r in res)
    samples = [s for r in res[:2] for s in r["samples"]][:3]
    if found is not None:
        samples = [found["scenario"]] + samples
    from . import texts

    cov = dict(
        evaluations=done,
        distinct_nontrivial=len(distinct),
        rule=texts.RULES[base["prop"]],
        samples=samples or ["no worker completed"],
        simulated_runs_per_hour=round(done / max(wall, 1e-9) * 3600),
        seeds_per_hour=round(done / max(wall, 1e-9) * 3600),
        simulated_time=f"{steps} steps (one step = one executed line of, or one call made by, s2wav code)",
        steps=steps,
        faults_injected=dict(sorted(faults.items())),
        fault_total=sum(faults.values()),
        distinct_interleavings=len(inter),
        interleaving_measure="distinct sequences of (caller, file:line, next caller) over all switches, with the functions called",
        distinct_code_sites_reached=len(sites),
        site_measure="distinct (function, line or call offset) of s2wav executed",
        counters=dict(sorted(stats.items())),
        determinism_reruns=sum(r["again"] for r in res),
        determinism_mismatches=sum(r["mismatched"] for r in res),
        s2fft_calls_by_provider=dict(served),
        components=texts.COMPONENTS,
        workers=len(res),
    )
    if problems:
        cov["problems"] = problems[:5]
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", base["prop"] + ".json"), "w") as fh:
        json.dump(dict(
            property=base["prop"], tier=base["tier"], seed=base["seed"], level=texts.LEVELS[base["prop"]],
            coverage=cov, assumptions=texts.ASSUMPTIONS, wall_s=round(wall, 2), violations=0 if found is None else 1,
        ), fh, indent=1)


def main(argv):
    if not argv:
        print("usage: s2sim check ID | replay FILE | selftest")
        return 2
    if argv[0] == "check":
        return check(argv[1])
    if argv[0] == "replay":
        return replay(argv[1])
    if argv[0] == "worker":
        return worker(json.loads(sys.stdin.read()))
    if argv[0] == "replayworker":
        return replay_worker(json.loads(sys.stdin.read()))
    if argv[0] == "outcomes":
        return outcomes()
    if argv[0] == "baseline":
        _boot()
        from . import focus

        focus.write()
        return 0
    if argv[0] == "trace":
        from . import selftest

        return selftest.trace(json.loads(sys.stdin.read()))
    if argv[0] == "selftest":
        from . import selftest

        return selftest.main(argv[1:])
    return 2
