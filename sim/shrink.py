"""Generic spec minimisation: yields smaller variants of a JSON spec, largest cuts first."""

import copy

_LISTS = ("faults", "ops", "io_faults", "crashes", "schedule", "points", "variables", "outputs")


def _walk(node, path=()):
    yield path, node
    if isinstance(node, dict):
        for k in sorted(node):
            yield from _walk(node[k], path + (k,))
    elif isinstance(node, list):
        for i, v in enumerate(node):
            if isinstance(v, (dict, list)):
                yield from _walk(v, path + (i,))


def _at(spec, path):
    for k in path:
        spec = spec[k]
    return spec


def _edit(spec, path, fn):
    out = copy.deepcopy(spec)
    try:
        if fn(_at(out, path)) is False:
            return None
    except (KeyError, IndexError, TypeError):
        return None
    return out if out != spec else None


def candidates(spec, info=None):
    """Yield candidate specs (deterministic order)."""
    info = info or {}
    worlds = [p for p, n in _walk(spec) if isinstance(n, dict) and "grid" in n and "time" in n]
    # 1. truncate time
    for p in worlds:
        steps = _at(spec, p)["time"]["steps"]
        cuts = []
        if isinstance(info.get("step"), int):
            cuts.append(info["step"] + 1)
        cuts += [1, 2, steps // 4, steps // 2, steps * 3 // 4, steps - 1]
        for c in sorted({c for c in cuts if 1 <= c < steps}):

            def f(w, c=c):
                w["time"]["steps"] = c

            yield _edit(spec, p, f)
    # 2. drop list elements (faults, ops)
    for p, n in _walk(spec):
        if p and p[-1] in _LISTS and isinstance(n, list) and n:
            m = len(n)
            chunk = m
            while chunk >= 1:
                for s in range(0, m, chunk):

                    def f(lst, s=s, chunk=chunk):
                        del lst[s : s + chunk]

                    yield _edit(spec, p, f)
                if chunk == 1:
                    break
                chunk = max(1, chunk // 2)
    # 3. drop stations, simplify terrain
    for p in worlds:
        w = _at(spec, p)
        for i in range(len(w.get("stations", []))):
            if len(w["stations"]) > 1:

                def f(w, i=i):
                    del w["stations"][i]

                yield _edit(spec, p, f)
        for key, val in (("roi", 1.0), ("nan", 0), ("svf", "file"), ("relief", 0.0)):

            def f(w, key=key, val=val):
                if w["grid"].get(key) == val:
                    return False
                w["grid"][key] = val

            yield _edit(spec, p, f)
        for key in ("rows", "cols"):
            for v in sorted({1, 2, w["grid"][key] // 2, w["grid"][key] - 1}):
                if 1 <= v < w["grid"][key]:

                    def f(w, key=key, v=v):
                        w["grid"][key] = v

                    yield _edit(spec, p, f)
    # 4. drop configuration keys
    for p, n in _walk(spec):
        if p and "cfg" in p and isinstance(n, dict) and "cfg" not in p[:-1]:
            for q, leaf in _walk(n):
                if not q:
                    continue

                def f(c, q=q):
                    for k in q[:-1]:
                        c = c[k]
                    del c[q[-1]]

                yield _edit(spec, p, f)
    # 5. shrink integers named len / at
    for p, n in _walk(spec):
        if p and isinstance(n, dict) and "len" in n and isinstance(n["len"], int) and n["len"] > 1:

            def f(d):
                d["len"] = 1

            yield _edit(spec, p, f)
