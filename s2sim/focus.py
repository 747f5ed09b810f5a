"""Where to look first: code that differs from the tree this was written for.

``baseline.json`` holds hashes of every definition and line of s2wav and, per
simulated call, the functions it executed. A scenario generator may use it to
*sample* calls, switch points and fault points in changed code more often. It
takes no part in any verdict: on the recorded tree it is empty and sampling is
uniform, on a changed tree about half of the sampling stays uniform.
"""
import ast
import hashlib
import json
import os

from . import boot

PATH = os.path.join(os.path.dirname(os.path.abspath(__file__)), "baseline.json")


def _h(s):
    return hashlib.blake2b(s.encode(), digest_size=6).hexdigest()


def _bare(node):
    """AST text of a definition without docstrings."""
    for n in ast.walk(node):
        b = getattr(n, "body", None)
        if isinstance(b, list) and b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
            n.body = b[1:]
    return ast.dump(node)


def scan(root):
    """{file: (definitions {qualname: hash}, module-level hash, line hashes)}"""
    out = {}
    top = os.path.join(root, "s2wav")
    for d, ds, fs in os.walk(top):
        ds.sort()
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            with open(p, encoding="utf-8", errors="replace") as fh:
                src = fh.read()
            try:
                tree = ast.parse(src)
            except SyntaxError:
                continue
            defs, rest = {}, []

            def walk(body, pre, rest):
                for n in body:
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        defs[pre + n.name] = _h(_bare(n))
                    elif isinstance(n, ast.ClassDef):
                        walk(n.body, pre + n.name + ".", rest)
                    else:
                        rest.append(ast.dump(n))

            if tree.body and isinstance(tree.body[0], ast.Expr):
                tree.body = tree.body[1:]
            walk(tree.body, "", rest)
            lines = sorted({_h(x.strip()) for x in src.splitlines() if x.strip()})
            out["s2wav/" + os.path.relpath(p, top)] = (defs, _h("\n".join(rest)), lines)
    return out


class Focus:
    def __init__(self):
        self.funcs = set()  # "file:qualname" of changed definitions
        self.ops = []
        self._text = {}
        self._new = {}
        try:
            with open(PATH) as fh:
                self.base = json.load(fh)
        except (OSError, ValueError):
            self.base = None
            return
        now = scan(boot.REPO)
        files = self.base["files"]
        for f, (defs, mod, lines) in now.items():
            old = files.get(f)
            if old is None:
                self.funcs.update(f"{f}:{q}" for q in defs)
                continue
            ch = {q for q in defs if old[0].get(q) != defs[q]}
            if not ch and (mod != old[1] or set(old[0]) - set(defs)):
                ch = set(defs)
            self.funcs.update(f"{f}:{q}" for q in ch)
        if self.funcs:
            self.ops = sorted(o for o, r in self.base["reach"].items() if self.funcs.intersection(r))

    def names(self, names):
        """Those of `names` that run changed code (all if none does)."""
        s = set(self.ops)
        return [n for n in names if n in s]

    def site(self, name, line):
        """2: a changed line, 1: another line of a changed definition, 0."""
        f, q = name.split(":")[:2]
        if q.partition(".<locals>")[0] == q and f"{f}:{q}" not in self.funcs:
            # generator expressions, lambdas and nested functions
            return 0
        if f"{f}:{q.split('.<locals>')[0]}" not in self.funcs:
            return 0
        new = self._new.get(f)
        if new is None:
            try:
                with open(os.path.join(boot.REPO, f), encoding="utf-8", errors="replace") as fh:
                    src = fh.read().splitlines()
            except OSError:
                src = []
            old = set(self.base["files"].get(f, [0, 0, []])[2])
            new = self._new[f] = {i + 1 for i, x in enumerate(src) if x.strip() and _h(x.strip()) not in old}
        return 2 if line in new else 1


_focus = None


def get():
    global _focus
    if _focus is None:
        _focus = Focus()
    return _focus


def write():
    """Record the current tree (run by hand, never by a check)."""
    import random

    from . import engine, loader, ops, sched, seams

    reach = {}
    for fn in ops.NAMES:
        ctx = engine.Ctx()
        r = set()
        rng = random.Random(fn)
        for _ in range(6 if not ops.heavy(fn) else 3):
            s = ops.rand_op(rng, [fn])
            pr = ctx.solo(s, "eager")[1]
            for x in pr.distinct:
                f, q = sched.SITE_NAMES[x].split(":")[:2]
                r.add(f"{f}:{q.split('.<locals>')[0]}")
        reach[fn] = sorted(r)
    with open(PATH, "w") as fh:
        json.dump(dict(files=scan(boot.REPO), reach=reach), fh, indent=0, sort_keys=True)
        fh.write("\n")
