"""Thread-schedule seam for the parallel kernels.

The kernels of openamundsen run their pixel loops as numba `prange` loops on real threads, whose
interleaving nobody controls.  With the JIT compiler disabled the kernels are plain Python; this
module rewrites them while they are imported (in memory, nothing in the tree is touched): the body
of every `prange` loop becomes a generator that yields before every statement and between the load
and the store of every array update.  `dispatch` then plays the threads: the iterations are
distributed over simulated threads and a scheduler decides at every yield which thread goes on.
Names assigned in the loop body are private to an iteration, names only updated in place are
reductions, arrays are shared - the semantics numba gives to such a loop.  A loop is only
parallel if the function is compiled with parallel=True; that is observed at the decorator.
"""

import ast
import functools
import importlib.abc
import importlib.machinery
import os
import sys
import types

PACKAGE = "openamundsen"
DISPATCH = "__oasim_prange__"


# ------------------------------------------------------------------ source transformation


def _yield():
    return ast.Expr(ast.Yield(None))


def _assigned(body):
    stored, aug = set(), set()

    class V(ast.NodeVisitor):
        def visit_AugAssign(self, n):
            if isinstance(n.target, ast.Name):
                aug.add(n.target.id)
            self.visit(n.value)

        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store):
                stored.add(n.id)

        def visit_FunctionDef(self, n):
            stored.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

    for s in body:
        V().visit(s)
    return stored, aug


class _Acc(ast.NodeTransformer):
    """Reduction variables live in the accumulator of the thread."""

    def __init__(self, names):
        self.names = names

    def visit_Name(self, n):
        if n.id in self.names:
            return ast.Subscript(ast.Name("__acc", ast.Load()), ast.Constant(n.id), n.ctx)
        return n


class _Body:
    def __init__(self):
        self.tmp = 0

    def stmts(self, body, top):
        out = []
        for s in body:
            out.append(_yield())
            out.extend(self.stmt(s, top))
        return out

    def stmt(self, s, top):
        if isinstance(s, ast.Continue) and top:
            return [ast.Return(None)]
        if isinstance(s, ast.Assign) and any(_has_sub(t) for t in s.targets):
            t = self.name()
            return [ast.Assign([ast.Name(t, ast.Store())], s.value), _yield(),
                    ast.Assign(s.targets, ast.Name(t, ast.Load()))]
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Subscript):
            t = self.name()
            load = _copy(s.target)
            load.ctx = ast.Load()
            return [ast.Assign([ast.Name(t, ast.Store())], ast.BinOp(load, s.op, s.value)), _yield(),
                    ast.Assign([s.target], ast.Name(t, ast.Load()))]
        if isinstance(s, (ast.For, ast.While)):
            s.body = self.stmts(s.body, False)
            s.orelse = self.stmts(s.orelse, top) if s.orelse else []
        elif isinstance(s, ast.If):
            s.body = self.stmts(s.body, top)
            s.orelse = self.stmts(s.orelse, top) if s.orelse else []
        elif isinstance(s, ast.With):
            s.body = self.stmts(s.body, top)
        return [s]

    def name(self):
        self.tmp += 1
        return f"__t{self.tmp}"


def _copy(n):
    return ast.parse(ast.unparse(n), mode="eval").body


def _has_sub(t):
    return isinstance(t, ast.Subscript) or (
        isinstance(t, (ast.Tuple, ast.List)) and any(_has_sub(e) for e in t.elts))


class Transform(ast.NodeTransformer):
    def __init__(self):
        self.names = {"prange"}
        self.n = 0

    def visit_ImportFrom(self, node):
        for a in node.names:
            if a.name == "prange" and a.asname:
                self.names.add(a.asname)
        return node

    def is_prange(self, it):
        return isinstance(it, ast.Call) and (
            (isinstance(it.func, ast.Name) and it.func.id in self.names)
            or (isinstance(it.func, ast.Attribute) and it.func.attr == "prange"))

    def visit_For(self, node):
        if not self.is_prange(node.iter) or not isinstance(node.target, ast.Name):
            self.generic_visit(node)
            return node
        self.n += 1
        fn = f"__oasim_body{self.n}"
        stored, aug = _assigned(node.body)
        red = sorted(aug - stored)
        ops = _reduction_ops(node.body, red)
        body = _Body().stmts(node.body, True)
        if red:
            body = [_Acc(set(red)).visit(s) for s in body]
        args = ast.arguments(posonlyargs=[], args=[ast.arg(node.target.id), ast.arg("__acc")],
                             kwonlyargs=[], kw_defaults=[], defaults=[])
        d = ast.FunctionDef(fn, args, body, [], None, None, type_params=[])
        call = ast.Call(ast.Name(DISPATCH, ast.Load()),
                        [ast.Name(fn, ast.Load()),
                         ast.Tuple(list(node.iter.args), ast.Load()),
                         ast.Dict([ast.Constant(k) for k in red],
                                  [ast.Constant(ops[k]) for k in red]),
                         ast.Dict([ast.Constant(k) for k in red],
                                  [ast.Name(k, ast.Load()) for k in red])], [])
        out = [d]
        if red:
            out.append(ast.Assign([ast.Tuple([ast.Name(k, ast.Store()) for k in red], ast.Store())],
                                  call))
        else:
            out.append(ast.Expr(call))
        return [ast.copy_location(x, node) for x in out]


def _reduction_ops(body, names):
    ops = {}
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in names:
                ops[n.target.id] = "*" if isinstance(n.op, (ast.Mult, ast.Div)) else "+"
    return ops


def transform(source, path):
    tree = ast.parse(source, path)
    t = Transform()
    tree = t.visit(tree)
    ast.fix_missing_locations(tree)
    return tree, t.n


# ------------------------------------------------------------------ simulated threads

_parallel = [False]
_scheduler = None
loops = {}


class Sequential:
    def run(self, body, n, red, init):
        acc = {k: (1 if red[k] == "*" else 0) for k in red}
        for i in n:
            for _ in body(i, acc):
                pass
        return [acc]


class Scheduler:
    """Seeded interleaving of simulated threads.

    plan: {"threads": T, "policy": walk|pct|roundrobin|reverse, "p": switch probability,
           "split": static|dynamic, "seed": ...}
    """

    def __init__(self, rng, plan, limit=4_000_000):
        self.rng, self.plan, self.limit = rng, plan, limit
        self.switches = 0
        self.yields = 0
        self.regions = 0
        self.trace = 0

    def run(self, body, n, red, init):
        n = list(n)
        p, rng = self.plan, self.rng
        T = max(1, min(p["threads"], len(n)))
        self.regions += 1
        accs = [{k: (1 if red[k] == "*" else 0) for k in red} for _ in range(T)]
        if p["split"] == "dynamic":
            queue = list(n)
            take = lambda t: queue.pop(0) if queue else None  # noqa: E731
        else:
            cuts = [len(n) * t // T for t in range(T + 1)]
            if p["split"] == "ragged":
                cuts = sorted([0, len(n), *(rng.randint(0, len(n)) for _ in range(T - 1))])
            chunks = [n[cuts[t] : cuts[t + 1]] for t in range(T)]
            take = lambda t: chunks[t].pop(0) if chunks[t] else None  # noqa: E731
        live = list(range(T))
        cur = [None] * T
        prio = list(range(T))
        rng.shuffle(prio)
        t = live[0] if p["policy"] != "reverse" else live[-1]
        while live:
            # choose
            if p["policy"] == "roundrobin":
                t = live[(live.index(t) + 1) % len(live)] if t in live else live[0]
            elif p["policy"] == "pct":
                if rng.random() < p["p"]:
                    prio[t] = -self.yields  # demote the running thread
                t = max(live, key=lambda x: prio[x])
            elif p["policy"] == "reverse":
                if t not in live:
                    t = live[-1]
            elif t not in live or rng.random() < p["p"]:
                t2 = live[int(rng.random() * len(live))]
                if t2 != t:
                    self.switches += 1
                    self.trace = hash((self.trace, self.yields, t2))
                t = t2
            self.yields += 1
            if self.yields > self.limit:
                raise RuntimeError("interleaving budget exceeded")
            g = cur[t]
            if g is None:
                i = take(t)
                if i is None:
                    live.remove(t)
                    continue
                g = cur[t] = body(i, accs[t])
            try:
                next(g)
            except StopIteration:
                cur[t] = None
        return accs


def dispatch(body, args, red, init):
    loops[body.__code__.co_filename.rsplit("/", 1)[-1]] = loops.get(
        body.__code__.co_filename.rsplit("/", 1)[-1], 0) + 1
    s = _scheduler if (_scheduler is not None and _parallel[-1]) else Sequential()
    accs = s.run(body, range(*args), red, init)
    out = []
    for k in red:
        v = init[k]
        for a in accs:
            v = v * a[k] if red[k] == "*" else v + a[k]
        out.append(v)
    return tuple(out) if len(out) != 1 else (out[0],)


class use:
    """with use(scheduler): parallel loops run under it."""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        global _scheduler
        self.prev, _scheduler = _scheduler, self.s
        return self.s

    def __exit__(self, *a):
        global _scheduler
        _scheduler = self.prev


# ------------------------------------------------------------------ installation


def _patch_numba():
    import numba

    def wrap(orig):
        @functools.wraps(orig)
        def deco(*args, **kw):
            par = bool(kw.get("parallel", False))

            def mark(f):
                @functools.wraps(f)
                def call(*a, **k):
                    _parallel.append(par)
                    try:
                        return f(*a, **k)
                    finally:
                        _parallel.pop()

                call.py_func = f
                return call

            if len(args) == 1 and isinstance(args[0], types.FunctionType):
                return mark(args[0])
            return mark

        return deco

    numba.njit = wrap(numba.njit)
    numba.jit = wrap(numba.jit)


class _Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimization=-1):
        tree, n = transform(data, path)
        return compile(tree, path, "exec", dont_inherit=True)

    def get_code(self, fullname):  # never use or write bytecode caches
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name.split(".")[0] != PACKAGE:
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = _Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    if "numba" in sys.modules or PACKAGE in sys.modules:
        raise RuntimeError("interleave.install() must run before numba and the package are imported")
    os.environ["NUMBA_DISABLE_JIT"] = "1"
    import builtins

    setattr(builtins, DISPATCH, dispatch)
    _patch_numba()
    sys.meta_path.insert(0, _Finder())
