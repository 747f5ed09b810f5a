"""The properties: scenario generators, executors and oracles.

Every scenario is a JSON value that fully determines one execution (calls,
data, schedule, faults). ``gen(rng, ctx)`` draws one, ``run(scn, ctx)`` executes
it against the code in /repo and raises Violation if the property fails.
"""
import asyncio
import collections
import contextlib
import copy
import functools
import gc
import hashlib
import json
import os
import sys
import threading
import tracemalloc
import weakref

import jax
import jax.numpy as jnp
import numpy as np
import torch

from . import ambient, disk, focus, loader, model, ops, sched, seams
from .engine import DEP_EXC, EXC, LINE_EXC, Snap, Violation, key, leaves, scribble

PROPS = {}


class Prop:
    def __init__(self, pid, gen, run, lists=(), real_every=0):
        self.id, self.gen, self.run, self.lists = pid, gen, run, lists
        PROPS[pid] = self


def dup(x):
    return json.loads(json.dumps(x))


# ------------------------------------------------------------------ helpers
REAL_FNS = (
    "transforms.wavelet.analysis", "transforms.wavelet.synthesis", "transforms.wavelet.flm_to_analysis",
    "transforms.wavelet_c.analysis", "transforms.wavelet_precompute.analysis",
    "transforms.wavelet_precompute.synthesis", "filters.filters_directional_jax",
)


def choose_mode(rng, ctx):
    """Which jit semantics this scenario runs under; a few use the real one."""
    if ctx.turn(3, 150):
        return "real"
    return "eager" if rng.random() < 0.6 else "traced"


def base_op(rng, ctx, jit, names=None):
    if jit == "real":
        s = ops.rand_op(rng, focus.get().names(REAL_FNS) or REAL_FNS)
        s["c"] = dict(
            L=4, N=rng.choice((1, 2, 3)) if "precompute" not in s["fn"] else 2, J_min=0, lam=2.0, spin=0,
            sampling=rng.choice(("mw", "dh")), nside=None, reality=rng.random() < 0.3, multires=True,
        )
        ops._refit(rng, s)
        return s
    return ctx.op(rng, names)


def kin(rng, ctx, base, jit):
    """Another call, usually closely related to `base`."""
    if jit == "real":
        s = dup(base)
        s["d"] += rng.choice((0, 1, 2))
        return s
    if focus.get().ops and rng.random() < 0.35:
        return ops.related(rng, base, focus.get().ops)
    r = rng.random()
    if r < 0.25:
        return dup(base)
    if r < 0.4:
        s = dup(base)
        s["d"] += 1 + rng.randrange(4)
        return s
    if r < 0.72:
        return ctx.vary(rng, base)
    if r < 0.92:
        return ops.related(rng, base)
    return ctx.op(rng)


def call_all(inst, specs, kws, out):
    """Body of one simulated caller: its calls, one after the other."""

    def body():
        for s, kw in zip(specs, kws):
            try:
                r = ops.invoke(inst, s, kw)
                out.append((r, None))
                del r
            except (sched.SimAbort, sched.StepLimit):
                raise
            except BaseException as e:  # noqa: BLE001
                out.append((None, e))
        return None

    return body


def sticky(ctx, name):
    """A dependency that keeps failing from this call on."""

    def act(task, n, fn):
        task.actions.insert(task.ai, (n + 1, act))
        task._setnext()
        if fn is not None and sched.dep_of(fn) is not None and not sched.sheltered(fn):
            ctx.faults[name + " (persistent)"] += 1
            raise EXC[name]("s2sim: injected, persistent")

    return act


def torn(ctx):
    """The disk fills up during this call: what it wrote is cut short."""

    def act(task, n, fn):
        if fn is None or getattr(fn, "__name__", "") in ("replace", "rename", "link"):
            return
        before = disk.stamp()

        def then(task, n, fn):
            if disk.tear(before):
                ctx.faults["torn write"] += 1
                raise OSError(28, "s2sim: No space left on device")

        task.actions.insert(task.ai, (n + 1, then))
        task._setnext()

    return act


def fault_actions(ctx, faults, task):
    out = []
    for f in faults:
        if f[0] == task and f[2] == "torn":
            out.append((f[1], torn(ctx)))
        elif f[0] == task:
            out.append((f[1], sticky(ctx, f[2]) if len(f) > 3 and f[3] else ctx.fault(f[2])))
    return out


class played:
    def __init__(self):
        self.outs, self.raw, self.kws, self.sim = [], [], [], None


def play(ctx, inst, jit, tasks, plan=(), faults=(), share=None, extra=None, finish=True):
    """Run the callers under the plan; outcomes per task and call."""
    p = played()
    p.kws = [[ops.build(s, share) for s in t] for t in tasks]
    p.raw = [[] for _ in tasks]
    if len(tasks) == 1 and not plan:
        t = sched.run_here(
            call_all(inst, tasks[0], p.kws[0], p.raw[0]),
            fault_actions(ctx, faults, 0) + list((extra or {}).get(0, ())),
        )
        ctx.steps += t.step
        if isinstance(t.error, sched.StepLimit):
            raise Violation("no-progress", f"{ops.show(tasks[0][len(p.raw[0])])} does not return within the step budget")
        if isinstance(t.error, (sched.SimAbort, sched.Deadlock)):
            raise Violation("deadlock", f"{ops.show(tasks[0][len(p.raw[0])])} blocks for ever")
        for r, e in p.raw[0]:
            if isinstance(e, sched.Deadlock):
                raise Violation("deadlock", f"a call blocks for ever: {e}")
    else:
        fns = [call_all(inst, s, k, o) for s, k, o in zip(tasks, p.kws, p.raw)]
        ex = {i: fault_actions(ctx, faults, i) + list((extra or {}).get(i, ())) for i in range(len(tasks))}
        sim = p.sim = sched.Sim(fns, [tuple(x) for x in plan], ex)
        sim.run()
        ctx.steps += sum(t.step for t in sim.tasks)
        ctx.stats["switches"] += sim.switches
        if sim.interleaving:
            ctx.inter.add(hashlib.blake2b(json.dumps([[[s["fn"] for s in t] for t in tasks], sim.interleaving]).encode(), digest_size=8).hexdigest())
        if sim.deadlock:
            raise Violation("deadlock", f"callers block for ever waiting for {sim.deadlock}")
        for t in sim.tasks:
            if isinstance(t.error, sched.StepLimit):
                raise Violation("no-progress", f"caller {t.idx} does not finish within the step budget")
            if t.error is not None:
                raise Violation("wrong-result", f"caller {t.idx} died: {t.error!r}")
    if finish:
        for o, k in zip(p.raw, p.kws):
            p.outs.append([ops.result_outcome(r, e, kw) for (r, e), kw in zip(o, k)])
    return p


def offsets(ctx, jit, specs):
    out, n = [], 0
    for s in specs:
        pr = ctx.solo(s, jit)[1]
        out.append((n, pr))
        n += pr.n
    return out


def gen_plan(rng, ctx, jit, tasks, k):
    offs = [offsets(ctx, jit, t) for t in tasks]
    plan = []
    cur = 0
    for _ in range(k):
        t = cur if rng.random() < 0.8 else rng.randrange(len(tasks))
        off, pr = rng.choice(offs[t])
        tgt = rng.choice([x for x in range(len(tasks)) if x != t])
        plan.append([t, off + pr.pick_step(rng), tgt])
        cur = tgt
    return plan


def gen_fault(rng, ctx, jit, specs, task=0, dep=None):
    off, pr = rng.choice(offsets(ctx, jit, specs))
    if dep is None:
        dep = rng.random() < 0.4
    if dep:
        s = pr.pick_dep(rng)
        if s is not None and ctx.writes and rng.random() < 0.5:
            return [task, off + s, "torn", False]
        if s is not None:
            return [task, off + s, rng.choice(DEP_EXC), rng.random() < 0.15]
    return [task, off + pr.pick_step(rng), rng.choice(LINE_EXC), False]


def check_calls(ctx, jit, specs, outs, what):
    for s, o in zip(specs, outs):
        ctx.check(s, o, jit, what)


def after_calls(ctx, inst, jit, specs, what):
    for s in specs:
        p = play(ctx, inst, jit, [[s]])
        ctx.check(s, p.outs[0][0], jit, what)


def instance(ctx, importer=None, opt=-1):
    ctx.stats["process_starts"] += 1
    if opt > 0:
        ctx.faults["ambient: interpreter flag -" + "O" * opt] += 1
    return loader.Instance(importer, opt)


CHEAP = [n for n in ops.NAMES if not ops.heavy(n)]


def gen_past(rng, base):
    """What the process has done before: many cheap calls over a range of configurations."""
    s = base
    for _ in range(8):
        if not ops.heavy(s["fn"]):
            break
        s = ops.related(rng, base, rng.choice((focus.get().ops, CHEAP, None)) or None)
    if ops.heavy(s["fn"]):
        return []
    out = ops.sweep(rng, s, rng.choice((4, 8, 16, 32)))
    rng.shuffle(out)
    return out


def run_past(ctx, inst, past):
    if not past:
        return
    with sched.quiet():
        for s in past:
            try:
                ops.invoke(inst, s, ops.build(s))
            except Exception:
                pass
    ctx.stats["past_calls"] += len(past)


# ------------------------------------------------------------------ C01
def g_concurrent(rng, ctx):
    jit = choose_mode(rng, ctx)
    base = base_op(rng, ctx, jit)
    nt = 2 if rng.random() < 0.75 or jit == "real" else rng.choice((3, 4))
    tasks = [[base]]
    while len(tasks) < nt:
        tasks.append([kin(rng, ctx, base, jit)])
    if rng.random() < 0.25 and jit != "real":
        rng.choice(tasks).append(kin(rng, ctx, base, jit))
    k = rng.choice((1, 1, 2, 2, 3, 4, 6, 10))
    if jit != "real" and rng.random() < 0.15:
        # one caller stalls while another gets through many calls
        burst = [s for s in gen_past(rng, base)[:12] if ctx.solo(s, jit)[1].n <= 60_000]
        if burst:
            tasks, k = [[base], burst[: rng.choice((3, 6, 12))]], rng.choice((1, 1, 2))
    scn = dict(jit=jit, tasks=tasks, plan=gen_plan(rng, ctx, jit, tasks, k), share=rng.random() < 0.5, warm=[], after=[])
    r = rng.random()
    if r < 0.2:
        scn["warm"] = [kin(rng, ctx, base, jit)]
    elif r < 0.35:
        scn["warm"] = [dup(s) for t in tasks for s in t]
    elif r < 0.5 and jit != "real":
        scn["past"] = gen_past(rng, base)
    if rng.random() < 0.4:
        scn["after"] = [dup(rng.choice(rng.choice(tasks)))]
    return scn


def r_concurrent(scn, ctx):
    jit = scn["jit"]
    inst = instance(ctx)
    with seams.mode(jit=jit, lite=jit != "real"), inst.active():
        run_past(ctx, inst, scn.get("past", ()))
        after_calls(ctx, inst, jit, scn["warm"], "first call")
        p = play(ctx, inst, jit, scn["tasks"], scn["plan"], share={} if scn["share"] else None)
        for i, (t, o) in enumerate(zip(scn["tasks"], p.outs)):
            check_calls(ctx, jit, t, o, f"concurrent caller {i} of {len(scn['tasks'])}")
        after_calls(ctx, inst, jit, scn["after"], "call after concurrent calls")
    if p.sim is not None and p.sim.switches:
        ctx.nontrivial(("c01", [[s["fn"] for s in t] for t in scn["tasks"]], p.sim.interleaving))


Prop("C01", g_concurrent, r_concurrent, ("warm", "past", "after", "plan", "tasks"))


# ------------------------------------------------------------------ C02
BAD = ("J_min", "sampling", "none", "L", "trunc", "filters")
CTX = ("jaxpr", "no_grad", "inference", "x32", "np_raise", "thread", "torch64", "disable_jit", "eval_shape")


def g_long(rng, ctx, jit, base):
    """Many cheap calls: counters, evictions, periodic clean-ups."""
    pool, cost = [base], ctx.solo(base, jit)[1].n
    want = rng.choice((0, 1, 3, 8, 20, 40))
    for s in ops.sweep(rng, base, want) if rng.random() < 0.6 else [kin(rng, ctx, base, jit) for _ in range(want)]:
        if ops.heavy(s["fn"]) or cost > 250_000:
            continue
        k = ctx.solo(s, jit)[1].n
        cost += k
        if k <= 60_000:
            pool.append(s)
    cost, ev = 0, []
    n = rng.choice((30, 60, 140, 280))
    while len(ev) < n and cost < 4_000_000:
        s = rng.choice(pool) if len(ev) >= len(pool) else pool[len(ev)]
        cost += ctx.solo(s, jit)[1].n + 2000
        ev.append({"k": "op", "s": s, "fast": True})
    return dict(jit=jit, events=ev)


def g_history(rng, ctx):
    jit = choose_mode(rng, ctx)
    base = base_op(rng, ctx, jit)
    if jit != "real" and rng.random() < 0.25 and not ops.heavy(base["fn"]) and ctx.solo(base, jit)[1].n <= 60_000:
        return g_long(rng, ctx, jit, base)
    ev = []
    n = rng.choice((2, 3, 4, 5, 6, 8)) if jit != "real" else 2
    for i in range(n):
        s = base if i == 0 else kin(rng, ctx, base, jit)
        if rng.random() < 0.2:
            base = s
        e = {"k": "op", "s": s}
        if i and rng.random() < (0.3 if ctx.writes else 0.04):
            e["restart"] = True
        r = rng.random()
        if jit != "real":
            if r < 0.25:
                e["k"] = "buf"
            elif r < 0.4:
                e["k"] = "ctx"
                e["how"] = rng.choice(CTX)
                if e["how"] == "x32" and jit == "traced":
                    # the traced-jit stand-in does not model JAX's own x64 cache keys
                    e["how"] = "thread"
            elif r < 0.48:
                e["k"] = "bad"
                e["how"] = rng.choice(BAD)
        ev.append(e)
        if e["k"] == "buf" and rng.random() < 0.7:
            t = dup(s)
            t["d"] += 1
            if t["x"].get("fs", 1) == 1 and rng.random() < 0.5 and ops.OPS[t["fn"]].cls == "transform" and "base" not in t["fn"]:
                t["x"]["fs"] = 2.0
            ev.append({"k": "buf", "s": t})
        if e["k"] in ("ctx", "bad") and rng.random() < 0.8:
            ev.append({"k": "op", "s": dup(s) if rng.random() < 0.6 else ctx.vary(rng, s)})
    if ev[-1]["k"] not in ("op", "buf"):
        ev.append({"k": "op", "s": dup(ev[-1]["s"])})
    return dict(jit=jit, events=ev, memory=rng.choice((0, 0, 0, 2, 7e5)))


def bad_kw(kw, how):
    if how == "J_min" and "J_min" in kw:
        kw["J_min"] = 99
    elif how == "sampling" and "sampling" in kw:
        kw["sampling"] = "bogus"
    elif how == "L" and "L" in kw:
        kw["L"] = kw["L"] + 3
    elif how == "filters" and "filters" in kw:
        kw["filters"] = None
    else:
        for k in ("f", "flm", "f_scal", "f_wav", "f_w"):
            if k in kw:
                kw[k] = None if how == "none" else (kw[k][:-1])
                break
        else:
            for k in ("L", "j", "t", "n"):
                if k in kw:
                    kw[k] = "x"
                    break
    return kw


def copy_into(old, new):
    """Overwrite the contents of `old` with `new`; False if impossible."""
    if type(old) is not type(new):
        return False
    if isinstance(old, (list, tuple)):
        return len(old) == len(new) and all(copy_into(a, b) for a, b in zip(old, new))
    if isinstance(old, np.ndarray):
        if old.shape != new.shape or old.dtype != new.dtype or not old.flags.writeable:
            return False
        old[...] = new
        return True
    if isinstance(old, torch.Tensor):
        if old.shape != new.shape or old.dtype != new.dtype:
            return False
        with torch.no_grad():
            old.copy_(new)
        return True
    return False


def in_context(ctx, inst, s, how, jit):
    """A call the host makes under some outer context; its result is not
    compared (the context may legitimately change it), only its aftermath."""
    kw = ops.build(s)
    ctx.faults["outer context: " + how] += 1

    def go():
        r = ops.invoke(inst, s, kw)
        return r

    def body():
        if how in ("jaxpr", "eval_shape"):
            names = [k for k in ("f", "flm", "f_wav", "f_scal") if k in kw and not isinstance(kw[k], torch.Tensor)]
            if "torch" in s["form"] or jit != "traced":
                names = []
            dyn = {k: kw[k] for k in names}
            rest = {k: v for k, v in kw.items() if k not in names}
            f = lambda d: jax.tree_util.tree_map(  # noqa: E731
                lambda x: x if isinstance(x, (jax.Array, np.ndarray)) else 0, ops.invoke(inst, s, {**rest, **d})
            )
            return (jax.make_jaxpr(f) if how == "jaxpr" else (lambda g: lambda d: jax.eval_shape(g, d)))(f)(dyn)
        if how == "no_grad":
            with torch.no_grad():
                return go()
        if how == "inference":
            with torch.inference_mode():
                return go()
        if how == "x32":
            with jax.experimental.disable_x64():
                return go()
        if how == "np_raise":
            with np.errstate(all="raise"):
                return go()
        if how == "disable_jit":
            with jax.disable_jit():
                return go()
        if how == "torch64":
            old = torch.get_default_dtype()
            torch.set_default_dtype(torch.float64 if old == torch.float32 else torch.float32)
            try:
                return go()
            finally:
                torch.set_default_dtype(old)
        if how == "thread":
            box = []

            def t():
                try:
                    box.append(go())
                except BaseException as e:  # noqa: BLE001
                    box.append(e)

            th = threading.Thread(target=t)
            th._s2sim = True
            th.start()
            th.join()
            return None
        raise AssertionError(how)

    t = sched.run_here(body, limit=1_000_000)
    ctx.steps += t.step
    return t


def r_history(scn, ctx):
    jit = scn["jit"]
    inst = instance(ctx)
    bufs = {}
    ncalls = 0
    fast = False
    with seams.mode(jit=jit, lite=jit != "real"), contextlib.ExitStack() as live, contextlib.ExitStack() as mute, ambient.blank_memory(scn.get("memory", 0)):
        # blank_memory: what earlier calls leave in memory that is handed out again
        live.enter_context(inst.active())
        for i, e in enumerate(scn["events"]):
            s = e["s"]
            if e.get("restart"):
                ctx.faults["process restart"] += 1
                live.close()
                inst = instance(ctx)
                live.enter_context(inst.active())
            if bool(e.get("fast")) != fast:
                fast = not fast
                mute.close()
                if fast:
                    mute.enter_context(sched.quiet())
            if fast:
                kw = ops.build(s)
                r = err = None
                try:
                    r = ops.invoke(inst, s, kw)
                except Exception as ex:
                    err = ex
                ctx.check(s, ops.result_outcome(r, err, kw), jit, f"call {i} of a history")
                ncalls += 1
            elif e["k"] == "op":
                p = play(ctx, inst, jit, [[s]])
                ctx.check(s, p.outs[0][0], jit, f"call {i} of a history")
                ncalls += 1
            elif e["k"] == "buf":
                kw = ops.build(s)
                bk = (s["fn"], s["form"], json.dumps(s["c"], sort_keys=True))
                old = bufs.get(bk)
                if old is not None:
                    for n in kw:
                        if n in old and ops.is_data(kw[n]) and copy_into(old[n], kw[n]):
                            kw[n] = old[n]
                            ctx.faults["caller buffer reused"] += 1
                bufs[bk] = kw
                t = sched.run_here(lambda: ops.invoke(inst, s, kw))
                ctx.steps += t.step
                ctx.check(s, ops.outcome(t, kw), jit, f"call {i} of a history, on reused caller buffers")
                ncalls += 1
            elif e["k"] == "ctx":
                in_context(ctx, inst, s, e["how"], jit)
            else:
                kw = bad_kw(ops.build(s), e["how"])
                t = sched.run_here(lambda: ops.invoke(inst, s, kw), limit=1_000_000)
                ctx.steps += t.step
                ctx.faults["invalid call: " + ("refused" if t.error is not None else "accepted")] += 1
    if ncalls > 1:
        ctx.nontrivial(("c02", scn["events"]))


Prop("C02", g_history, r_history, ("events",))


# ------------------------------------------------------------------ C03
TRANS = [n for n in ops.NAMES if ops.OPS[n].cls == "transform"]
ARRAY_OPS = TRANS + ["samples.wavelet_shape_check"]


def g_args(rng, ctx):
    jit = choose_mode(rng, ctx)
    s = base_op(rng, ctx, jit, ARRAY_OPS)
    if jit == "real":
        s["form"] = rng.choice(("jax", "c"))
    scn = dict(jit=jit, s=s, warm=[], faults=[], probes=rng.random() < 0.75)
    if rng.random() < 0.2 and jit != "real":
        scn["warm"] = [kin(rng, ctx, s, jit)]
    for _ in range(rng.choice((0, 1, 2, 4))):
        scn["faults"].append(gen_fault(rng, ctx, jit, [s]))
    return scn


def r_args(scn, ctx):
    jit, s = scn["jit"], scn["s"]
    inst = instance(ctx)
    with seams.mode(jit=jit, lite=jit != "real"), inst.active():
        after_calls(ctx, inst, jit, scn["warm"], "warm-up")
        pr = ctx.solo(s, jit)[1]
        for f in [None] + scn["faults"]:
            kw = ops.build(s)
            snap = Snap(kw)
            acts = []
            if f is not None:
                acts = fault_actions(ctx, [f], 0)
            elif scn["probes"]:
                seen = []

                def probe(task, n, fn):
                    d = snap.diff()
                    ctx.stats["probes"] += 1
                    if d and not seen:
                        seen.append((sched.where(), d))

                marks = set()
                for st in pr.distinct:
                    marks.update(pr.occ[st])
                acts = [(m, probe) for m in sorted(marks)]
            t = sched.run_here(lambda: ops.invoke(inst, s, kw), acts)
            ctx.steps += t.step
            d = snap.diff()
            how = "returned" if t.error is None else f"failed with {type(t.error).__name__}"
            if d:
                raise Violation("argument-modified", f"{ops.show(s)} {how}: {d}")
            if f is None and scn["probes"] and seen:
                raise Violation("argument-modified-temporarily", f"{ops.show(s)} while running, at {seen[0][0]}: {seen[0][1]}")
            if f is None:
                ctx.check(s, ops.outcome(t, kw), jit, "call with watched arguments")
                if s["form"] == "ro":
                    o = ctx.solo(dict(s, form="c"), jit)[0]
                    r = ops.differ(ops.outcome(t), o)
                    if r:
                        raise Violation("argument-not-readonly", f"{ops.show(s)} on read-only arrays: {r}")
            ctx.stats["argument_checks"] += 1
            del t
    ctx.nontrivial(("c03", scn["s"], scn["faults"]))


Prop("C03", g_args, r_args, ("warm", "faults"))


# ------------------------------------------------------------------ C04
def g_crash(rng, ctx):
    jit = choose_mode(rng, ctx)
    base = base_op(rng, ctx, jit)
    if rng.random() < 0.3 and jit != "real":
        tasks = [[base], [kin(rng, ctx, base, jit)]]
        plan = gen_plan(rng, ctx, jit, tasks, rng.choice((1, 2, 3)))
        attempts = [dict(tasks=tasks, plan=plan, faults=[gen_fault(rng, ctx, jit, tasks[0])])]
    else:
        attempts = []
        for _ in range(rng.choice((1, 2, 3, 5, 8)) if jit != "real" else 1):
            s = base if rng.random() < 0.7 else kin(rng, ctx, base, jit)
            attempts.append(dict(tasks=[[s]], plan=[], faults=[gen_fault(rng, ctx, jit, [s])]))
    after = [dup(base)]
    if jit != "real":
        for _ in range(rng.choice((0, 1, 1, 2))):
            after.append(kin(rng, ctx, base, jit))
        rng.shuffle(after)
    warm = [kin(rng, ctx, base, jit)] if rng.random() < 0.15 and jit != "real" else []
    past = gen_past(rng, base) if rng.random() < 0.12 and jit != "real" else []
    return dict(jit=jit, warm=warm, past=past, attempts=attempts, after=after, restart=rng.random() < (0.4 if ctx.writes else 0.05))


def r_crash(scn, ctx):
    jit = scn["jit"]
    inst = instance(ctx)
    with seams.mode(jit=jit, lite=jit != "real"), inst.active():
        run_past(ctx, inst, scn.get("past", ()))
        after_calls(ctx, inst, jit, scn["warm"], "warm-up")
        n = sum(ctx.faults.values())
        for a in scn["attempts"]:
            p = play(ctx, inst, jit, a["tasks"], a["plan"], a["faults"], finish=len(a["tasks"]) > 1)
            hit = {f[0] for f in a["faults"]}
            for i in range(len(a["tasks"])):
                if i not in hit and p.outs:
                    check_calls(ctx, jit, a["tasks"][i], p.outs[i], "caller running while another one fails")
            del p
        if scn.get("restart"):
            ctx.faults["process restart"] += 1
            inst = instance(ctx)
    with seams.mode(jit=jit, lite=jit != "real"), inst.active():
        after_calls(ctx, inst, jit, scn["after"], f"call after {len(scn['attempts'])} failed calls")
        if sum(ctx.faults.values()) > n:
            ctx.nontrivial(("c04", scn["attempts"], scn["after"]))


Prop("C04", g_crash, r_crash, ("warm", "past", "after", "attempts"))


# ------------------------------------------------------------------ C05
def g_loud(rng, ctx):
    jit = choose_mode(rng, ctx)
    s = base_op(rng, ctx, jit)
    faults = []
    for _ in range(rng.choice((4, 8, 12)) if jit != "real" else 1):
        if rng.random() < 0.85:
            f = gen_fault(rng, ctx, jit, [s], dep=True)
        else:
            f = gen_fault(rng, ctx, jit, [s], dep=False)
        fs = [f]
        if rng.random() < 0.2:
            fs.append(gen_fault(rng, ctx, jit, [s], dep=True))
        faults.append(fs)
    warm = [dup(s)] if rng.random() < 0.15 and jit != "real" else []
    return dict(jit=jit, s=s, warm=warm, attempts=faults)


def r_loud(scn, ctx):
    jit, s = scn["jit"], scn["s"]
    for fs in scn["attempts"]:
        inst = instance(ctx)
        with seams.mode(jit=jit, lite=jit != "real"), inst.active():
            after_calls(ctx, inst, jit, scn["warm"], "warm-up")
            kw = ops.build(s)
            n = sum(ctx.faults.values())
            t = sched.run_here(lambda: ops.invoke(inst, s, kw), fault_actions(ctx, fs, 0))
            ctx.steps += t.step
            fired = sum(ctx.faults.values()) > n
            exp = ctx.solo(s, jit)[0]
            if isinstance(t.error, sched.StepLimit):
                raise Violation("no-progress", f"{ops.show(s)} with {fs} does not end within the step budget")
            if t.error is None:
                o = ops.outcome(t, kw)
                r = ops.differ(o, exp)
                if r:
                    raise Violation("silent-failure", f"{ops.show(s)} with {fs} returned normally but: {r}")
            ctx.stats["raised" if t.error is not None else "completed"] += 1
            if fired:
                ctx.nontrivial(("c05", s, fs))


Prop("C05", g_loud, r_loud, ("warm", "attempts"))


# ------------------------------------------------------------------ C06
def g_own(rng, ctx):
    jit = choose_mode(rng, ctx)
    base = base_op(rng, ctx, jit)
    ev = []
    for i in range(rng.choice((2, 3, 4, 5)) if jit != "real" else 2):
        s = base if i == 0 else kin(rng, ctx, base, jit)
        ev.append(dict(s=s, act=rng.choice(("result", "result", "args", "none", "both")), who=rng.randrange(8)))
    if jit != "real":
        ev.append(dict(s=dup(base), act="none", who=0))
    return dict(jit=jit, events=ev)


def _mem(x):
    """(address range) of a leaf's memory, exact strides ignored."""
    if isinstance(x, np.ndarray):
        lo, hi = np.lib.array_utils.byte_bounds(x) if hasattr(np.lib, "array_utils") else np.byte_bounds(x)
        return lo, hi
    if isinstance(x, torch.Tensor):
        if not x.numel():
            return 0, 0
        lo = x.data_ptr()
        return lo, lo + (sum((n - 1) * abs(st) for n, st in zip(x.shape, x.stride())) + 1) * x.element_size()
    return 0, 0


def lists(x):
    """The list objects of a result or argument tree."""
    if isinstance(x, list):
        yield x
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from lists(y)


def overlap(a, b):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return a.size > 0 and b.size > 0 and np.shares_memory(a, b)
    x, y = _mem(a), _mem(b)
    if not (x[0] < y[1] and y[0] < x[1]):
        return False
    if isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor):
        try:
            return bool(np.shares_memory(a.detach().resolve_conj().numpy(), b.detach().resolve_conj().numpy()))
        except Exception:
            return True
    return True


def r_own(scn, ctx):
    jit = scn["jit"]
    inst = instance(ctx)
    held = []  # dicts: s, r, o, kw, snap, dirty
    with seams.mode(jit=jit, lite=jit != "real"), inst.active():

        def verify(what):
            for h in held:
                if h["dirty"]:
                    continue
                r = ops.differ(ops.result_outcome(h["r"]), h["o"])
                ctx.stats["held_results_checked"] += 1
                if r:
                    raise Violation("result-changed", f"result of {ops.show(h['s'])} changed {what}: {r}")

        for i, e in enumerate(scn["events"]):
            s = e["s"]
            kw = ops.build(s)
            t = sched.run_here(lambda: ops.invoke(inst, s, kw))
            ctx.steps += t.step
            ctx.check(s, ops.outcome(t, kw), jit, f"call {i}, after the caller wrote to earlier results and arguments")
            if t.error is not None:
                continue
            ls = [x for _, x in leaves(t.result) if not isinstance(x, jax.Array)]
            for x in ls:
                st = x.stride() if isinstance(x, torch.Tensor) else x.strides
                if any(n > 1 and q == 0 for n, q in zip(x.shape, st)) and (isinstance(x, torch.Tensor) or x.flags.writeable):
                    raise Violation("result-aliased", f"entries of an array returned by {ops.show(s)} share memory with each other")
            for a in range(len(ls)):
                for b in range(a):
                    if overlap(ls[a], ls[b]):
                        raise Violation("result-aliased", f"two arrays returned by {ops.show(s)} share memory")
                for k in kw:
                    for pth, y in leaves(kw[k], k):
                        if not isinstance(y, jax.Array) and overlap(ls[a], y):
                            raise Violation("result-aliased", f"an array returned by {ops.show(s)} shares memory with argument {pth}")
                for h in held:
                    for _, y in leaves(h["r"]):
                        if not isinstance(y, jax.Array) and overlap(ls[a], y):
                            raise Violation("result-aliased", f"results of {ops.show(s)} and of an earlier {ops.show(h['s'])} share memory")
            del ls
            boxes = {}
            for who, tree in [("itself", t.result), ("its arguments", list(kw.values()))] + [(f"the result of an earlier {ops.show(h['s'])}", h["r"]) for h in held]:
                for l in lists(tree):
                    if id(l) in boxes and (who == "itself" or boxes[id(l)] == "itself"):
                        raise Violation("result-aliased", f"a list returned by {ops.show(s)} is also part of {who}")
                    boxes[id(l)] = who
            verify(f"when {ops.show(s)} ran")
            held.append(dict(s=s, r=t.result, o=ops.outcome(t), kw=kw, snap=Snap(kw), dirty=False, adirty=False))
            h = held[e["who"] % len(held)]
            if e["act"] in ("result", "both"):
                h["dirty"] = True
                ctx.stats["scribbles"] += scribble(h["r"])
                d = None if h["adirty"] else h["snap"].diff()
                if d:
                    raise Violation("result-aliases-argument", f"writing to the result of {ops.show(h['s'])}: {d}")
                verify(f"when the caller wrote to the result of {ops.show(h['s'])}")
            if e["act"] in ("args", "both"):
                h["adirty"] = True
                for v in h["kw"].values():
                    ctx.stats["scribbles"] += scribble(v, -3.5e3)
                verify(f"when the caller wrote to the arguments of {ops.show(h['s'])}")
            del t
    ctx.nontrivial(("c06", scn["events"]))


Prop("C06", g_own, r_own, ("events",))


# ------------------------------------------------------------------ C07
def g_state(rng, ctx):
    jit = choose_mode(rng, ctx)
    base = base_op(rng, ctx, jit)
    tasks, plan, faults = [[base]], [], []
    r = rng.random()
    if r < 0.3 and jit != "real":
        tasks.append([kin(rng, ctx, base, jit)])
        plan = gen_plan(rng, ctx, jit, tasks, rng.choice((1, 2, 2, 3)))
    if 0.15 < r < 0.75:
        faults = [gen_fault(rng, ctx, jit, tasks[0])]
    return dict(jit=jit, tasks=tasks, plan=plan, faults=faults, baseline=ambient.rand_baseline(rng, rng.choice((0, 1, 3, 6, 10)) or None), bseed=rng.randrange(10**6))


def r_state(scn, ctx):
    import random as _r

    jit = scn["jit"]
    with seams.mode(jit=jit, lite=jit != "real"):
        specs = [s for t in scn["tasks"] for s in t]
        for s in specs:  # dependencies' own lazy initialisation happens here
            ctx.solo(s, jit)
        ctx.keep.restore()
        ambient.apply(scn["baseline"], _r.Random(scn["bseed"]))
        a = ambient.snapshot(".")
        with ambient.capture() as buf:
            a["sys streams"] = tuple(ambient.Ident(getattr(sys, k)) for k in ("stdin", "stdout", "stderr"))
            inst = instance(ctx)
            i = ambient.compare(a, ambient.snapshot("."))
            if i:
                raise Violation("state-changed", f"importing the package: {i}")
            with inst.active():
                p = play(ctx, inst, jit, scn["tasks"], scn["plan"], scn["faults"], finish=False)
                errs = [type(e).__name__ for o in p.raw for _, e in o if e is not None]
                del p
            b = ambient.snapshot(".")
            if threading.active_count() > 1:
                b["live threads"] = sorted(t.name for t in threading.enumerate() if t.is_alive() and not getattr(t, "_s2sim", False))
        d = ambient.compare(a, b)
        names = " and ".join(ops.show(s) for s in specs)
        if d:
            raise Violation("state-changed", f"{names} ({'failed: ' + ', '.join(errs) if errs else 'completed'}): {d}")
        if buf.getvalue():
            raise Violation("state-changed", f"{names} wrote to standard output: {buf.getvalue()[:80]!r}")
        ctx.stats["state_comparisons"] += 1
    ctx.keep.restore()
    ctx.nontrivial(("c07", scn["tasks"], scn["faults"], scn["plan"], scn["baseline"]))


Prop("C07", g_state, r_state, ("baseline", "plan", "faults", "tasks"))


# ------------------------------------------------------------------ C08
def g_ambient(rng, ctx):
    if ctx.turn(2, 100):
        specs = [ctx.op(rng) for _ in range(24)]
        return dict(kind="xproc", jit="eager", specs=specs, env=dict(PYTHONHASHSEED=str(rng.randrange(1, 4 * 10**9)), TZ=rng.choice(("Asia/Tokyo", "UTC")), LANG="C", USER="nobody", NUMBA_DISABLE_JIT="1"), opt=rng.random() < 0.5)
    jit = choose_mode(rng, ctx)
    s = base_op(rng, ctx, jit)
    where_ = rng.choice(("main", "main", "main", "thread", "asyncio"))
    imp = rng.choice(("all", "all", "shuffled", "only"))
    sett = ambient.rand_baseline(rng)
    gcs = []
    if rng.random() < 0.3:
        pr = ctx.solo(s, jit)[1]
        gcs = sorted(pr.pick_step(rng) for _ in range(6))
    return dict(kind="ambient", jit=jit, s=s, where=where_, imp=imp, iseed=rng.randrange(10**6), baseline=sett, bseed=rng.randrange(10**6), gc=gcs, reps=rng.choice((1, 1, 2)), nostdout=rng.random() < 0.15, opt=rng.choice((-1, -1, -1, 1, 2)))


def _importer(how, seed, fn):
    import importlib
    import random as _r

    def go():
        if how == "only":
            mod = ("s2wav." + fn).rsplit(".", 1)[0]
            importlib.import_module(mod)
            return
        names = loader.submodules()
        _r.Random(seed).shuffle(names)
        for n in names:
            importlib.import_module(n)

    return None if how == "all" else go


def r_ambient(scn, ctx):
    import random as _r

    if scn["kind"] == "xproc":
        return r_xproc(scn, ctx)
    jit, s = scn["jit"], scn["s"]
    with seams.mode(jit=jit, lite=jit != "real"):
        exp = ctx.solo(s, jit)[0]
        ctx.keep.restore()
        br = _r.Random(scn["bseed"])
        ambient.apply(scn["baseline"], br)
        for n in scn["baseline"]:
            ctx.faults["ambient: " + n] += 1
        for n in sorted(ambient.ENV_READS):
            os.environ[n] = br.choice(("1", "0", "", "true", "7"))
            ctx.faults["ambient: variables the code reads"] += 1
        if disk.READS and scn["bseed"] % 2:
            ctx.faults["ambient: files the code looks for"] += disk.plant(br)
        if scn["nostdout"]:
            sys.stdout = None
        try:
            inst = instance(ctx, _importer(scn["imp"], scn["iseed"], s["fn"]), scn["opt"])
            with inst.active():
                for _ in range(scn["reps"]):
                    kw = ops.build(s)

                    def act(task, n, fn):
                        gc.collect()

                    acts = [(g, act) for g in scn["gc"]]
                    if scn["where"] == "thread":
                        sim = sched.Sim([lambda: ops.invoke(inst, s, kw)], (), {0: acts})
                        sim.run()
                        t = sim.tasks[0]
                    elif scn["where"] == "asyncio":

                        async def co():
                            return sched.run_here(lambda: ops.invoke(inst, s, kw), acts)

                        t = asyncio.run(co())
                    else:
                        t = sched.run_here(lambda: ops.invoke(inst, s, kw), acts)
                    ctx.steps += t.step
                    o = ops.outcome(t, None if "torch_nograd" in scn["baseline"] else kw)
                    if "torch_nograd" in scn["baseline"]:
                        o, exp = nograd(o), nograd(exp)
                    r = ops.differ(o, exp)
                    ctx.stats["calls_checked"] += 1
                    if r:
                        raise Violation("ambient-dependence", f"{ops.show(s)} under {scn['baseline']}, {scn['where']}, import {scn['imp']}: {r}")
        finally:
            ctx.keep.restore()
            ambient.CLOCK.reset()
    ctx.nontrivial(("c08", s, scn["baseline"], scn["where"], scn["imp"]))


def nograd(o):
    """An outcome without the parts that exist only in grad mode."""
    if isinstance(o, ops.Arr):
        return ops.Arr("torch", o.a) if o.kind == "torch+grad" else o
    if isinstance(o, tuple) and o[0] == "withgrad":
        return nograd(o[1][0])
    if isinstance(o, tuple) and isinstance(o[1], list):
        return (o[0], [nograd(x) for x in o[1]])
    if isinstance(o, tuple) and o[0] == "ok":
        return ("ok", nograd(o[1]))
    return o


def r_xproc(scn, ctx):
    """The same calls in another process: other hash seed, addresses, flags."""
    import pickle
    import subprocess

    env = dict(os.environ)
    env.update(scn["env"])
    env.pop("S2SIM_HOME", None)
    cmd = [sys.executable] + (["-O"] if scn["opt"] else []) + ["-m", "s2sim", "outcomes"]
    env["PYTHONPATH"] = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    pr = subprocess.run(cmd, input=json.dumps(scn).encode(), capture_output=True, env=env, timeout=600)
    if pr.returncode:
        raise Violation("ambient-dependence", f"another process (env {scn['env']}, -O {scn['opt']}) cannot run the calls: {pr.stderr.decode()[-300:]}")
    other = pickle.loads(pr.stdout)
    for s, o in zip(scn["specs"], other):
        exp = ctx.solo(s, scn["jit"])[0]
        r = ops.differ(o, exp)
        ctx.stats["calls_checked"] += 1
        if r:
            raise Violation("ambient-dependence", f"{ops.show(s)} in a process with {scn['env']} (-O: {scn['opt']}): {r}")
        ctx.nontrivial(("c08x", s, scn["env"]))
    ctx.faults["ambient: other process, hash seed and flags"] += 1


Prop("C08", g_ambient, r_ambient, ("baseline", "gc", "specs"))


# ------------------------------------------------------------------ C09
def avail(c, what):
    out = []
    if ops.valid(c, "base"):
        out += ["base", "base_looped"]
    if ops.valid(c, "wavelet"):
        out += ["wavelet"] + (["wavelet_pre"] if c["sampling"] != "healpix" else [])
    if ops.valid(c, "wavelet_c"):
        out.append("wavelet_c")
    if ops.valid(c, "wavelet_precompute"):
        out += ["precompute", "torch"]
    return out


OPMOD = dict(
    base="base", base_looped="base", wavelet="wavelet", wavelet_pre="wavelet", wavelet_c="wavelet_c",
    precompute="wavelet_precompute", torch="wavelet_precompute_torch",
)


def hot_backends(bs, whats):
    """Those whose transforms run changed code."""
    out = []
    for b in bs:
        m = OPMOD.get(b, b)
        if focus.get().names([f"transforms.{m}.{w}" + ("_looped" if b == "base_looped" else "") for w in whats]):
            out.append(b)
    return out


def stage(inst, c, what, backend, data, filt):
    """One pipeline stage on one backend, everything from the package itself."""
    L, N, jm, lam = c["L"], c["N"], c["J_min"], c["lam"]
    com = dict(L=L, N=N, J_min=jm, lam=lam, spin=c["spin"], sampling=c["sampling"], reality=c["reality"])
    if backend in ("base", "base_looped"):
        f = inst.get(f"s2wav.transforms.base.{what}" + ("_looped" if backend == "base_looped" else ""))
        com.update(nside=c["nside"], multiresolution=c["multires"])
        r = f(*data, **com)
    else:
        fl = inst.get("s2wav.filters." + filt)(L, N, jm, lam, c["spin"])
        fl = tuple(np.asarray(x) for x in fl)
        fwd = what == "synthesis"
        pk = dict(L=L, N=N, J_min=jm, lam=lam, sampling=c["sampling"], nside=c["nside"], forward=fwd, reality=c["reality"])
        if backend in ("wavelet", "wavelet_pre"):
            com["nside"] = c["nside"]
            if backend == "wavelet_pre":
                com["precomps"] = inst.get("s2wav.transforms.construct.generate_wigner_precomputes")(**pk)
            r = inst.get(f"s2wav.transforms.wavelet.{what}")(*data, filters=fl, **com)
        elif backend == "wavelet_c":
            r = inst.get(f"s2wav.transforms.wavelet_c.{what}")(*data, filters=fl, **com)
        elif backend == "precompute":
            com["nside"] = c["nside"]
            com["precomps"] = inst.get("s2wav.transforms.construct.generate_full_precomputes")(**pk)
            r = inst.get(f"s2wav.transforms.wavelet_precompute.{what}")(*data, filters=fl, **com)
        else:
            com["nside"] = c["nside"]
            com["precomps"] = inst.get("s2wav.transforms.construct.generate_full_precomputes")(using_torch=True, **pk)
            tf = tuple(torch.from_numpy(np.array(x)) for x in fl)
            td = [[torch.from_numpy(np.array(y)) for y in x] if isinstance(x, list) else torch.from_numpy(np.array(x)) for x in data]
            r = inst.get(f"s2wav.transforms.wavelet_precompute_torch.{what}")(*td, filters=tf, **com)
    if what == "synthesis":
        return np.array(to_np(r))
    return [np.array(to_np(x)) for x in r[0]], np.array(to_np(r[1]))


def to_np(x):
    return x.detach().resolve_conj().numpy() if isinstance(x, torch.Tensor) else np.asarray(x)


FILTS = ("filters_directional", "filters_directional_vectorised", "filters_directional_vectorised", "filters_directional_jax")


def pipe_cfg(rng, ctx):
    """A configuration; those the JAX backends take come from a small pool."""
    if not hasattr(ctx, "ppool"):
        import random as _r

        r = _r.Random(f"ppool|{ctx.seed}|{ctx.prop}|{ctx.slot}")
        n = 12 if ctx.tier == "quick" else 60
        ctx.ppool = [ops.rand_cfg(r, r.choice(("wavelet", "wavelet_c", "wavelet_precompute")), ops.TL) for _ in range(n)]
        ctx.ppool += [ops.rand_cfg(r, "wavelet", ops.BIG) for _ in range(2)]
    if rng.random() < 0.75:
        return dict(rng.choice(ctx.ppool)), None
    return ops.rand_cfg(rng, "base", ops.TL), ("base", "base_looped", "torch")


def g_pipe(rng, ctx):
    jit = choose_mode(rng, ctx)
    while True:
        c, only = pipe_cfg(rng, ctx)
        av = avail(c, "analysis")
        if only:
            av = [b for b in av if b in only]
        if av:
            break
    if c["sampling"] == "healpix":
        # s2fft's HEALPix transforms differ between its implementations, so a
        # HEALPix pipeline stays on one backend
        av = [rng.choice(av)]
    filts = list(FILTS) if c["L"] <= 6 and not only else list(FILTS[:3])
    if jit == "real":
        c = dict(L=4, N=2, J_min=0, lam=2.0, spin=0, sampling="mw", nside=None, reality=False, multires=True)
        av = [b for b in avail(c, "a")]
        filts = list(FILTS[:3])

    hot = hot_backends(av, ("analysis", "synthesis"))

    def st(ok):
        b = rng.choice(hot if hot and rng.random() < 0.6 else av)
        return dict(b=b, filt=rng.choice(filts), fault=None if ok else [rng.randrange(10**9), rng.choice(DEP_EXC + LINE_EXC)])

    a = [st(rng.random() < 0.5) for _ in range(rng.choice((0, 0, 1, 2)) if jit != "real" else 0)] + [st(True)]
    s = [st(False) for _ in range(rng.choice((0, 0, 1, 2)) if jit != "real" else 0)] + [st(True)]
    return dict(jit=jit, c=c, d=rng.randrange(8), analysis=a, synthesis=s, mix=[rng.randrange(1000) for _ in range(12)], restart=rng.random() < 0.5, dup=rng.random() < 0.3)


def attempt(ctx, inst, c, what, stg, data, jit):
    """Run a stage, possibly cut short; None if it failed."""
    acts = []
    if stg["fault"]:
        # the fault's position is relative to the stage's own length, which
        # is learnt from a dry run on another instance
        k = (jit, what, json.dumps(c, sort_keys=True), stg["b"], stg["filt"])
        n = ctx.lengths.get(k)
        if n is None:
            probe = loader.Instance()
            with probe.active():
                t = sched.run_here(lambda: stage(probe, c, what, stg["b"], data, stg["filt"]), record=True)
            from .engine import Profile

            n = ctx.lengths[k] = Profile(t)
        import random as _r

        acts = [(n.pick_step(_r.Random(stg["fault"][0])), ctx.fault(stg["fault"][1]))]
    t = sched.run_here(lambda: stage(inst, c, what, stg["b"], data, stg["filt"]), acts)
    ctx.steps += t.step
    if t.error is not None:
        if not stg["fault"]:
            raise Violation("pipeline-failed", f"{what} on {stg['b']} {cshow(c)}: {type(t.error).__name__}: {str(t.error)[:150]}")
        return None
    return t.result


def cshow(c):
    return "(" + ", ".join(f"{k}={c[k]}" for k in ops.KEYS if c[k] is not None) + ")"


def r_pipe(scn, ctx):
    jit, c = scn["jit"], scn["c"]
    flm, f, _, _ = ops._data(ops.ckey(c), scn["d"])
    hp = c["sampling"] == "healpix"
    with seams.mode(jit=jit, lite=jit != "real"):
        inst = instance(ctx)
        versions = []
        for stg in scn["analysis"]:
            if scn["restart"]:
                inst = instance(ctx)
            with inst.active():
                r = attempt(ctx, inst, c, "analysis", stg, [np.array(f)], jit)
            if r is not None:
                versions.append((stg["b"], r))
        nsc = len(versions[0][1][0])
        for b, v in versions:
            if len(v[0]) != nsc or any(x.shape != y.shape for x, y in zip(v[0], versions[0][1][0])):
                raise Violation("roundtrip", f"analysis on {b} and {versions[0][0]} disagree on the coefficients' shapes {cshow(c)}")
        pick = [scn["mix"][k % len(scn["mix"])] % len(versions) for k in range(nsc + 1)]
        wav = [np.array(versions[pick[k]][1][0][k]) for k in range(nsc)]
        scal = np.array(versions[pick[nsc]][1][1])
        who = "/".join(versions[p][0] for p in pick)
        for stg in scn["synthesis"]:
            if scn["restart"]:
                inst = instance(ctx)
            with inst.active():
                r = attempt(ctx, inst, c, "synthesis", stg, [[np.array(x) for x in wav], np.array(scal)], jit)
                if r is not None and scn["dup"]:
                    r2 = attempt(ctx, inst, c, "synthesis", dict(stg, fault=None), [[np.array(x) for x in wav], np.array(scal)], jit)
                    d = float(np.max(np.abs(r2 - r))) if r2.shape == r.shape else float("inf")
                    if not d <= 1e-9 * max(1.0, float(np.max(np.abs(r)))):
                        raise Violation("roundtrip", f"synthesis on {stg['b']} {cshow(c)} gives two results for one checkpoint: differ by {d:.3g}")
            if r is None:
                continue
            if hp:
                exp = hp_reference(ctx, c, scn["d"], stg["b"], jit)
            else:
                exp = f
            if r.shape != exp.shape:
                raise Violation("roundtrip", f"map of shape {r.shape} instead of {exp.shape}: analysis {who}, synthesis {stg['b']} {cshow(c)}")
            e = float(np.max(np.abs(r - exp)))
            ctx.stats["roundtrips"] += 1
            if not e <= 1e-8 * max(1.0, float(np.max(np.abs(exp)))):
                raise Violation("roundtrip", f"reconstruction error {e:.3g}: analysis {who} ({scn['analysis'][-1]['filt']}), synthesis {stg['b']} ({stg['filt']}) {cshow(c)}")
    ctx.nontrivial(("c09", c, [(x["b"], x["filt"], x["fault"]) for x in scn["analysis"] + scn["synthesis"]], pick))


_hp = {}


def hp_reference(ctx, c, d, backend, jit):
    """HEALPix has no exact sampling theorem: the reference is one
    uninterrupted run of the same pipeline in a pristine process."""
    k = (jit, ops.ckey(c), d, backend)
    if k not in _hp:
        f = ops._data(ops.ckey(c), d)[1]
        inst = loader.Instance()
        with inst.active():
            w, s = stage(inst, c, "analysis", backend, [np.array(f)], FILTS[0])
            _hp[k] = stage(inst, c, "synthesis", backend, [w, s], FILTS[0])
        if len(_hp) > 300:
            _hp.pop(next(iter(_hp)))
    return _hp[k]


Prop("C09", g_pipe, r_pipe, ("analysis!", "synthesis!"))


# ------------------------------------------------------------------ C10
DAMAGE = (
    "drop", "dup", "swap", "cut", "pad", "transpose", "scal_cut", "scal_pad", "other", "empty", "extra", "reverse",
    "lead", "flat", "scal_swap", "scal_flat", "zero_d", "ncut", "npad", "none", "scal_none", "rot",
)


def g_damage(rng, ctx):
    jit = choose_mode(rng, ctx)
    names = [n for n in ops.NAMES if ".synthesis" in n]
    if jit == "real":
        names = ["transforms.wavelet.synthesis"]
    s = base_op(rng, ctx, jit, names)
    if jit == "real":
        s["fn"] = "transforms.wavelet.synthesis"
        s["x"] = dict(pre=False)
        s["form"] = "c"
    dm = []
    for _ in range(rng.choice((3, 5, 8))):
        dm.append(dict(kind=rng.choice(DAMAGE), a=rng.randrange(1000), b=rng.randrange(1000), n=rng.choice((1, 1, 1, 2, 5)), other=ops.neighbour(rng, s["c"], ops.OPS[s["fn"]].backend)))
    return dict(jit=jit, s=s, damage=dm, opt=rng.choice((-1, -1, -1, 1, 2)))


def damage(w, s, c, d, dm, mk):
    """A structurally damaged copy of the checkpoint (w, s), or None."""
    w, k, a, b, n = list(w), dm["kind"], dm["a"], dm["b"], dm["n"]
    i, j = a % len(w), b % len(w)

    def cut(x, ax, n):
        sl = [slice(None)] * x.ndim
        sl[ax % x.ndim] = slice(0, max(0, x.shape[ax % x.ndim] - n))
        return x[tuple(sl)]

    def pad(x, ax, n):
        p = [(0, 0)] * x.ndim
        p[ax % x.ndim] = (0, n)
        return np.pad(x, p)

    if k == "drop":
        del w[i]
    elif k == "dup":
        w.insert(i, w[i].copy())
    elif k == "swap":
        w[i], w[j] = w[j], w[i]
    elif k == "rot":
        w = w[1:] + w[:1]
    elif k == "reverse":
        w = w[::-1]
    elif k == "cut":
        w[i] = cut(w[i], b, n)
    elif k == "pad":
        w[i] = pad(w[i], b, n)
    elif k == "ncut":
        w[i] = cut(w[i], 0, n)
    elif k == "npad":
        w[i] = pad(w[i], 0, n)
    elif k == "transpose":
        w[i] = np.array(w[i].T)
    elif k == "scal_cut":
        s = cut(s, b, n)
    elif k == "scal_pad":
        s = pad(s, b, n)
    elif k == "other":
        w2, s2 = ops._coeffs(ops.ckey(dm["other"]), d)
        if a % 3 == 0:
            w = list(w2)
        elif a % 3 == 1:
            s = s2
        else:
            w, s = list(w2), s2
    elif k == "empty":
        w = []
    elif k == "extra":
        w.append(w[i].copy())
    elif k == "lead":
        w[i] = w[i][None]
    elif k == "flat":
        w[i] = w[i].reshape(-1)
    elif k == "scal_swap":
        s, w[i] = w[i], s
    elif k == "scal_flat":
        s = s.reshape(-1)
    elif k == "zero_d":
        w[i] = w[i].reshape(-1)[0].reshape(())
    elif k == "none":
        return [mk(x) for x in w[:i]] + [None] + [mk(x) for x in w[i + 1 :]], mk(s)
    elif k == "scal_none":
        return [mk(x) for x in w], None
    good = ops._coeffs(ops.ckey(c), d)
    if [x.shape for x in w] == [x.shape for x in good[0]] and np.shape(s) == np.shape(good[1]):
        return None
    return [mk(x) for x in w], mk(s)


def r_damage(scn, ctx):
    jit, s = scn["jit"], scn["s"]
    inst = instance(ctx, None, scn["opt"])
    w, sc = ops._coeffs(ops.ckey(s["c"]), s["d"])
    with seams.mode(jit=jit, lite=jit != "real"), inst.active():
        for dm in scn["damage"]:
            bad = damage(w, sc, s["c"], s["d"], dm, lambda x: ops.leaf(x, s["form"]))
            if bad is None:
                continue
            kw = ops.build(s)
            kw["f_wav"] = tuple(bad[0]) if isinstance(kw["f_wav"], tuple) else bad[0]
            kw["f_scal"] = bad[1]
            t = sched.run_here(lambda: ops.invoke(inst, s, kw), limit=1_000_000)
            ctx.steps += t.step
            ctx.faults["damage: " + dm["kind"]] += 1
            if t.error is None:
                raise Violation("damage-accepted", f"{ops.show(s)} accepted coefficients of shapes {[None if x is None else tuple(x.shape) for x in bad[0]]} / {None if bad[1] is None else tuple(bad[1].shape)} instead of {[x.shape for x in w]} / {sc.shape} ({dm['kind']})")
            if not isinstance(t.error, Exception) or isinstance(t.error, sched.StepLimit):
                raise Violation("damage-accepted", f"{ops.show(s)}: damaged coefficients ({dm['kind']}) end in {type(t.error).__name__}")
            ctx.stats["refusals"] += 1
            ctx.nontrivial(("c10", s["fn"], s["c"], dm["kind"], dm["a"] % 7, dm["b"] % 3, dm["n"]))
            del t
        exp = ctx.solo(s, jit)[0]
        if exp[0] == "err" and s["form"] in ("c", "jax", "torch", "torch_grad"):
            raise Violation("intact-refused", f"{ops.show(s)} refuses an intact set of coefficients: {exp[1]}")
        after_calls(ctx, inst, jit, [s], "intact coefficients after damaged ones")


Prop("C10", g_damage, r_damage, ("damage",))


# ------------------------------------------------------------------ C11
WB = ("wavelet", "wavelet_c", "wavelet_precompute", "wavelet_precompute_torch")


def g_windows(rng, ctx):
    jit = choose_mode(rng, ctx)
    if jit == "real":
        c = dict(L=4, N=2, J_min=0, lam=2.0, spin=0, sampling="mw", nside=None, reality=False, multires=True)
        bs = [rng.choice(WB[:3])]
    else:
        while True:
            c, only = pipe_cfg(rng, ctx)
            c["spin"] = 0
            c["multires"] = True
            bs = [b for b in WB if ops.valid(c, b)]
            if only:
                bs = [b for b in bs if b.endswith("torch")]
            if bs:
                break
    if c["sampling"] == "healpix":
        bs = [rng.choice(bs)]
    J, lo = ops.J(c), c["J_min"]
    units, j = [], lo
    while j <= J:
        hi = rng.randrange(j, J + 1)
        units.append([j, hi])
        j = hi + 1
    for _ in range(rng.choice((0, 0, 1, 2))):  # redundant, overlapping windows
        a = rng.randrange(lo, J + 1)
        units.append([a, rng.randrange(a, J + 1)])
    out = []
    for a, b in units:
        ok = [x for x in bs if not (a == J and "precompute" in x)]
        if not ok:
            a = J - 1 if J - 1 >= lo else a
            ok = bs if a < J else []
        if not ok:
            continue
        hot = hot_backends(ok, ("flm_to_analysis",))
        out.append(dict(w=[a, b], b=rng.choice(hot if hot and rng.random() < 0.6 else ok), pre=rng.random() < 0.4 and c["sampling"] != "healpix", jmax=not (b == J and rng.random() < 0.5), fault=[rng.randrange(10**9), rng.choice(DEP_EXC + LINE_EXC)] if rng.random() < 0.25 else None))
    rng.shuffle(out)
    return dict(jit=jit, c=c, d=rng.randrange(8), units=out, restart=rng.random() < 0.4)


def window(inst, c, u, flm, psi):
    lo, hi = u["w"]
    kw = dict(L=c["L"], N=c["N"], J_min=lo, lam=c["lam"], sampling=c["sampling"], reality=c["reality"])
    if u["jmax"]:
        kw["J_max"] = hi
    if u["b"] != "wavelet_c":
        kw["nside"] = c["nside"]
    pk = dict(L=c["L"], N=c["N"], J_min=lo, lam=c["lam"], sampling=c["sampling"], nside=c["nside"], forward=False, reality=c["reality"])
    if u["b"] == "wavelet" and u["pre"]:
        kw["precomps"] = inst.get("s2wav.transforms.construct.generate_wigner_precomputes")(**pk)
    if "precompute" in u["b"]:
        to = u["b"].endswith("torch")
        kw["precomps"] = inst.get("s2wav.transforms.construct.generate_full_precomputes")(using_torch=to, **pk)
        if to:
            flm, psi = torch.from_numpy(np.array(flm)), torch.from_numpy(np.array(psi))
    r = inst.get(f"s2wav.transforms.{u['b']}.flm_to_analysis")(flm, filters=psi, **kw)
    return [np.array(to_np(x)) for x in r]


def hp_windows(c, d, backend, jit):
    """All scales at once on the same backend in a pristine process."""
    k = (jit, "w", ops.ckey(c), d, backend)
    if k not in _hp:
        flm, _, psi, _ = ops._data(ops.ckey(c), d)
        inst = loader.Instance()
        with seams.mode(jit=jit, lite=jit != "real"), inst.active():
            _hp[k] = window(inst, c, dict(w=[c["J_min"], ops.J(c)], b=backend, pre=False, jmax=False), flm.copy(), psi.copy())
    return _hp[k]


def r_windows(scn, ctx):
    jit, c = scn["jit"], scn["c"]
    flm, _, psi, phi = ops._data(ops.ckey(c), scn["d"])
    if c["sampling"] == "healpix":
        ref = hp_windows(c, scn["d"], scn["units"][0]["b"], jit) if scn["units"] else []
    else:
        ref = model.analyse(flm, c["L"], c["N"], c["J_min"], c["lam"], 0, c["sampling"], c["nside"], c["reality"], psi, None)[0]
    got = set()
    from .engine import Profile
    import random as _r

    with seams.mode(jit=jit, lite=jit != "real"):
        inst = instance(ctx)
        for u in scn["units"]:
            for k in range(2):
                if scn["restart"] and k == 0:
                    inst = instance(ctx)
                acts = []
                if u["fault"] and k == 0:
                    kk = (jit, "window", json.dumps([c, u["w"], u["b"], u["pre"], u["jmax"]], sort_keys=True))
                    pr = ctx.lengths.get(kk)
                    if pr is None:
                        probe = loader.Instance()
                        with probe.active():
                            pr = ctx.lengths[kk] = Profile(sched.run_here(lambda: window(probe, c, u, flm.copy(), psi.copy()), record=True))
                    acts = [(pr.pick_step(_r.Random(u["fault"][0])), ctx.fault(u["fault"][1]))]
                with inst.active():
                    t = sched.run_here(lambda: window(inst, c, u, flm.copy(), psi.copy()), acts)
                ctx.steps += t.step
                if t.error is None:
                    break
                if not acts:
                    raise Violation("window-failed", f"scales {u['w']} on {u['b']} {cshow(c)}: {type(t.error).__name__}: {str(t.error)[:150]}")
            r = t.result
            lo, hi = u["w"]
            if len(r) != hi - lo + 1:
                raise Violation("window-wrong", f"scales {u['w']} on {u['b']} {cshow(c)}: {len(r)} arrays instead of {hi - lo + 1}")
            for k, x in enumerate(r):
                y = ref[lo - c["J_min"] + k]
                if x.shape != y.shape:
                    raise Violation("window-wrong", f"scale {lo + k} of window {u['w']} on {u['b']} {cshow(c)}: shape {x.shape} instead of {y.shape}")
                e = float(np.max(np.abs(x - y)))
                if not e <= 1e-9 * max(1.0, float(np.max(np.abs(y)))):
                    raise Violation("window-wrong", f"scale {lo + k} of window {u['w']} on {u['b']} (precomps {u['pre']}, J_max {'given' if u['jmax'] else 'default'}) {cshow(c)}: differs by {e:.3g}")
                got.add(lo + k)
                ctx.stats["scales_checked"] += 1
            del t
    ctx.nontrivial(("c11", c, [(u["w"], u["b"], u["pre"], u["jmax"], u["fault"]) for u in scn["units"]]))


Prop("C11", g_windows, r_windows, ("units",))


# ------------------------------------------------------------------ C12
def g_retain(rng, ctx):
    jit = "eager" if rng.random() < 0.6 else "traced"
    s = ctx.op(rng)
    mode_ = "growth" if rng.random() < 0.15 else "refs"
    if mode_ == "growth" and ctx.solo(s, jit)[1].n > 4000 and rng.random() < 0.8:
        mode_ = "refs"
    faults = []
    if rng.random() < 0.4:
        faults = [gen_fault(rng, ctx, jit, [s]) for _ in range(1 if mode_ == "growth" else rng.choice((1, 2, 3)))]
    bad = [rng.choice(_BAD) for _ in range(rng.choice((0, 1, 1, 2)))]
    return dict(jit=jit, s=s, kind=mode_, faults=faults, vary=rng.random() < 0.5, bad=bad)


_BAD = ("J_min", "sampling", "L", "filters", "none", "short", "torn", "torn", "torn first")


def _refusable(kw, how):
    """Arguments of a call that the package or a dependency will refuse."""
    if how.startswith("torn") and isinstance(kw.get("f_wav"), (list, tuple)) and len(kw["f_wav"]) > 0:
        w = list(kw["f_wav"])
        i = 0 if how == "torn first" else len(w) - 1
        w[i] = w[i][..., :-1]
        return dict(kw, f_wav=type(kw["f_wav"])(w))
    return bad_kw(dict(kw), how)


def _refs(x, path, out):
    if isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            _refs(y, f"{path}[{i}]", out)
    elif isinstance(x, (np.ndarray, torch.Tensor, jax.Array)):
        try:
            out.append((path, weakref.ref(x)))
        except TypeError:
            pass


def _once(inst, s, acts=(), bad=None):
    """One call whose arguments and result are dropped before returning."""
    kw = ops.build(s)
    if bad:
        kw = _refusable(kw, bad)
    refs = []
    for k, v in kw.items():
        _refs(v, "argument " + k, refs)
    t = sched.run_here(lambda: ops.invoke(inst, s, kw), acts)
    if t.error is None:
        _refs(t.result, "result", refs)
    n = t.step
    t.fn = t.result = t.error = None
    t.actions = ()
    return refs, n


def r_retain(scn, ctx):
    jit, s = scn["jit"], scn["s"]
    inst = instance(ctx)
    with seams.mode(jit=jit, lite=True), inst.active():
        if scn["kind"] == "refs":
            for k in range(2):
                for f in [None] + scn["faults"] + scn.get("bad", []):
                    refused = isinstance(f, str)
                    refs, n = _once(inst, s, () if refused or not f else fault_actions(ctx, [f], 0), f if refused else None)
                    ctx.steps += n
                    gc.collect()
                    alive = [p for p, r in refs if r() is not None]
                    ctx.stats["objects_watched"] += len(refs)
                    if alive:
                        raise Violation("retained", f"{ops.show(s)} {'with bad arguments (' + f + ')' if refused else 'cut short' if f else 'completed'}: {alive[0]} is still referenced after the caller dropped it ({len(alive)} objects)")
        else:
            def burst(n):
                for i in range(n):
                    f = scn["faults"][0] if scn["faults"] and i % 2 else None
                    b = scn["bad"][0] if scn.get("bad") and i % 4 == 1 and n > 2 else None
                    if b:
                        f = None
                    q = dict(s, d=s["d"] + i % 3) if scn["vary"] else s
                    r, st = _once(inst, q, fault_actions(ctx, [f], 0) if f else (), b)
                    ctx.steps += st
                    del r
                gc.collect()

            n = 6 if ctx.solo(s, jit)[1].n < 4000 else 2
            burst(2 * n)
            tracemalloc.start(6)
            try:
                marks = []
                for _ in range(4):
                    burst(n)
                    marks.append((own_bytes(), len(jax.live_arrays()), ntorch(), len(os.listdir("/proc/self/fd")), threading.active_count(), elements(inst)))
            finally:
                tracemalloc.stop()
            ctx.stats["growth_series"] += 1
            g = [[b - a for a, b in zip(p, q)] for p, q in zip(marks, marks[1:])]
            names = ("bytes of Python memory", "JAX arrays", "torch tensors", "open files", "threads", "elements of the package's containers")
            for i, lim in enumerate((1320 if n > 2 else 700,) + (max(1, n // 2),) * 5):
                if all(x[i] >= lim for x in g):
                    if i == 5:  # a bounded container fills up; does this one?
                        a = marks[-1][5]
                        burst(40 * n)
                        b = elements(inst)
                        burst(10 * n)
                        if b - a < 20 * n or elements(inst) - b < 5 * n:
                            continue
                    raise Violation("growth", f"repeating {ops.show(s)}{' with failures' if scn['faults'] else ''} {n} times adds {[x[i] for x in g]} {names[i]} every time")
    ctx.nontrivial(("c12", s["fn"], s["c"], s["form"], scn["kind"], scn["faults"]))


_OURS = ("/s2wav/", "/numpy/", "/scipy/", "/s2fft/", "/copy.py", "/pickle.py", "/collections/", "/functools.py")


def elements(inst):
    """Number of elements of all containers reachable from the package's
    module globals, function attributes, closures and classes."""
    seen, todo, n = set(), [], 0
    for m in inst.modules.values():
        seen.add(id(m))
        todo.extend(v for k, v in vars(m).items() if not k.startswith("__"))
    while todo:
        x = todo.pop()
        if id(x) in seen or isinstance(x, (type(sys), str, bytes, int, float, np.ndarray, torch.Tensor, jax.Array)):
            continue
        seen.add(id(x))
        if isinstance(x, seams.SimJit):
            todo.append(x._fn)
        elif isinstance(x, (dict, weakref.WeakValueDictionary, weakref.WeakKeyDictionary)):
            n += len(x)
            todo.extend(list(x.values()))
        elif isinstance(x, (list, tuple, set, frozenset, collections.deque, weakref.WeakSet)):
            n += len(x)
            todo.extend(list(x))
        elif hasattr(x, "cache_info") and hasattr(x, "__wrapped__"):
            n += x.cache_info().currsize
            todo.append(x.__wrapped__)
        elif isinstance(x, type(elements)):
            if str(x.__module__).startswith("s2wav"):
                todo.append(vars(x))
                todo.extend(x.__defaults__ or ())
                for c in x.__closure__ or ():
                    with contextlib.suppress(ValueError):
                        todo.append(c.cell_contents)
        elif isinstance(x, functools.partial):
            todo.extend((x.func, x.args, x.keywords))
        elif isinstance(x, type):
            if str(x.__module__).startswith("s2wav"):
                todo.extend(vars(x).values())
        elif str(type(x).__module__).startswith("s2wav"):
            todo.append(getattr(x, "__dict__", {}))
    return n


def own_bytes():
    """Live memory allocated by s2wav code itself or by numeric library
    functions it called (JAX's own compilation caches are not counted)."""
    n = 0
    for tr in tracemalloc.take_snapshot().traces:
        for f in reversed(tr.traceback):  # innermost first
            if "/s2wav/" in f.filename:
                n += tr.size
                break
            if not any(o in f.filename for o in _OURS):
                break
    return n


def ntorch():
    return sum(1 for o in gc.get_objects() if type(o) is torch.Tensor)


Prop("C12", g_retain, r_retain, ("faults", "bad"))
