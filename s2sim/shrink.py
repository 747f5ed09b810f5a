"""Greedy minimisation of a failing scenario."""
import json
import time


def _cands(scn, lists):
    """Smaller scenarios, biggest cuts first."""
    for f in lists:
        last = f.endswith("!")  # the last element must stay
        f = f.rstrip("!")
        v = scn.get(f)
        if not isinstance(v, list) or not v:
            continue
        n = len(v) - (1 if last else 0)
        if f == "tasks" and len(v) > 1:
            for i in range(len(v)):
                s = json.loads(json.dumps(scn))
                del s["tasks"][i]
                mv = lambda t: t - (t > i)  # noqa: E731
                s["plan"] = [[mv(a), b, mv(c)] for a, b, c in s.get("plan", []) if a != i and c != i]
                if "faults" in s:
                    s["faults"] = [[mv(x[0])] + x[1:] for x in s["faults"] if x[0] != i]
                yield s
            for i in range(len(v)):
                if len(v[i]) > 1:
                    for k in range(len(v[i])):
                        s = json.loads(json.dumps(scn))
                        del s["tasks"][i][k]
                        yield s
            continue
        if f == "tasks":
            continue
        size = n
        while size >= 1:
            for i in range(0, n, size):
                s = json.loads(json.dumps(scn))
                del s[f][i : i + size]
                yield s
            size //= 2
    for k in ("probes", "share", "restart", "dup", "nostdout"):
        if scn.get(k) is True:
            s = json.loads(json.dumps(scn))
            s[k] = False
            yield s
    for k, v in (("where", "main"), ("imp", "all"), ("opt", -1)):
        if scn.get(k) not in (None, v):
            s = json.loads(json.dumps(scn))
            s[k] = v
            yield s
    for f in ("analysis", "synthesis", "units"):
        for i, e in enumerate(scn.get(f, [])):
            if e.get("fault") and (f == "units" or i == len(scn[f]) - 1):
                s = json.loads(json.dumps(scn))
                s[f][i]["fault"] = None
                yield s


def minimise(P, scn, v, attempt, deadline):
    best, bv = scn, v
    progress = True
    while progress and time.time() < deadline:
        progress = False
        for s in _cands(best, P.lists):
            if time.time() >= deadline:
                break
            if not s or s == best:
                continue
            r = attempt(s)
            if r is not None and r.kind == bv.kind:
                best, bv, progress = s, r, True
                break
    return best, bv
