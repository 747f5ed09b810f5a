"""Checks of the simulator itself (not of a property).

--quick: the package loads, the step monitor sees it, one call runs and is
reproducible. Without it: determinism of whole scenarios across processes and
equivalence of the lite/emulated components with the real ones.
"""
import json
import random
import sys
import time


def quick():
    from . import boot, loader, ops, sched, seams  # noqa: F401

    inst = loader.Instance()
    s = ops.rand_op(random.Random(1), ["samples.construct_flmn"])
    n = []
    for _ in range(2):
        with seams.mode(jit="eager", lite=True), inst.active():
            kw = ops.build(s)
            n.append(sched.run_here(lambda: ops.invoke(inst, s, kw), record=True).step)
    ok = n[0] == n[1] and n[0] > 0
    print("s2sim selftest:", "ok" if ok else f"step monitor: {n}")
    return 0 if ok else 1


def fidelity(seconds, seed):
    """Same calls with emulated and with real components."""
    from . import boot, loader, ops, sched, seams  # noqa: F401

    rng = random.Random(seed)
    inst = loader.Instance()
    t0, n, bad = time.time(), 0, 0
    while time.time() - t0 < seconds:
        b = rng.choice(["wavelet", "wavelet_precompute", "wavelet_c"])
        fn = f"transforms.{b}.{rng.choice(['analysis', 'synthesis', 'flm_to_analysis'])}"
        if rng.random() < 0.3:
            fn = rng.choice(["transforms.construct.generate_full_precomputes", "filters.filters_directional_jax"])
        s = ops.rand_op(rng, [fn])
        if s["c"]["L"] > 6:
            continue
        outs = {}
        for m in ("eager", "traced", "real"):
            kw = ops.build(s)
            with seams.mode(jit=m, lite=m != "real"), inst.active():
                outs[m] = ops.outcome(sched.run_here(lambda: ops.invoke(inst, s, kw)))
        for m in ("eager", "traced"):
            n += 1
            r = ops.differ(outs[m], outs["real"], 1e-10)
            if r:
                bad += 1
                print("DIFFERS", m, r, ops.show(s), flush=True)
    print(f"fidelity: {n} comparisons, {bad} differences")
    return bad


def determinism(props_, seed=1, per=3):
    """The same scenarios in two processes: same steps, same switches."""
    from . import cli

    bad = 0
    with cli.Scratch() as d:
        for pid in props_:
            outs = []
            for hs in (0, 12345):
                p = cli.spawn("trace", dict(prop=pid, seed=seed, tier="quick", slots=cli.SLOTS, slot=0, n=per), d, hs)
                o, _ = cli._communicate(p, 600)
                outs.append([x for x in o.decode().splitlines() if x.startswith("[")])
            same = outs[0] == outs[1] and len(outs[0]) > 0
            bad += not same
            print(pid, "deterministic" if same else f"DIFFERS {outs}", flush=True)
    return bad


def trace(a):
    """Child: run n scenarios and print their step counts and switches."""
    from . import cli

    props, engine = cli._boot()
    P = props.PROPS[a["prop"]]
    ctx = cli._ctx(engine, a, a["slot"])
    out = []
    for k in range(a["n"] + 3):
        if k in (2, 3):
            continue
        i = k * a["slots"] + a["slot"]
        scn = cli._scenario(P, ctx, a, i)
        n = ctx.steps
        v = cli.execute(P, scn, ctx, engine)
        out.append([i, json.dumps(scn, sort_keys=True), ctx.steps - n, sorted(ctx.inter), sorted(ctx.faults.items()), str(v)])
    print(json.dumps(out), flush=True)
    return 0


def main(argv):
    if "--quick" in argv:
        return quick()
    if "--fidelity" in argv:
        return 1 if fidelity(float(argv[argv.index("--fidelity") + 1]), int(argv[-1])) else 0
    from . import cli

    return 1 if determinism(sorted(cli.COUNT)) else 0
