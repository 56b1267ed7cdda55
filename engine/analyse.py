"""Runs every rule over every public function, in parallel, callees first."""
import multiprocessing
import os
import sys

import absint
import build_ir
import rules

PROG = None
TASK = None


def _call(x):
    return TASK(x)


def pmap(f, xs):
    """Map in forked processes; the function and its data are inherited."""
    global TASK
    xs = list(xs)
    if len(xs) < 2:
        return [f(x) for x in xs]
    TASK = f
    n = min(len(xs), int(os.environ.get("VERIF_JOBS", "8")))
    with multiprocessing.get_context("fork").Pool(n) as pool:
        return list(pool.imap(_call, xs, 1))


def levels(prog):
    """Functions grouped so that callees come before callers (cycles together)."""
    import collections
    g = {n: sorted({i.ex for i in f.inst.values() if i.op in ("call", "invoke")
                    and isinstance(i.ex, str) and i.ex in prog.funcs})
         for n, f in prog.funcs.items()}
    index, low, on, stack, comp, out = {}, {}, set(), [], {}, []

    def strong(v):
        index[v] = low[v] = len(index)
        stack.append(v)
        on.add(v)
        for w in g[v]:
            if w not in index:
                strong(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            c = []
            while True:
                w = stack.pop()
                on.discard(w)
                c.append(w)
                comp[w] = len(out)
                if w == v:
                    break
            out.append(c)
    for v in sorted(g):
        if v not in index:
            strong(v)
    depth = {}
    for k, c in enumerate(out):
        depth[k] = 1 + max([depth[comp[w]] for v in c for w in g[v] if comp[w] != k] or [-1])
    byl = collections.defaultdict(list)
    for k, c in enumerate(out):
        byl[depth[k]] += c
    return [byl[d] for d in sorted(byl)]


def analysed(f):
    """Public functions, and the checking helpers that are expanded into them."""
    return f.public or (build_ir.force_inline(f.dname) and f.linkage != "internal")


def one(task):
    name, entry = task
    fn = PROG.funcs[name]
    out = rules.run(PROG, fn, entry)
    rel = rules.released_fields(PROG, fn) if entry == "Z" and analysed(fn) and \
        rules.RELEASE.match(name) else None
    return (task, out, PROG.__dict__.get("_effects", {}).get(name),
            PROG.summaries.get(name), rel)


def program():
    """The current tree's program with its field invariants."""
    global PROG
    prog = absint.Program(build_ir.build("seq"), invariants=False)
    PROG = prog
    prog.field_inv = absint.field_invariants(prog, pmap)
    prog.summaries.clear()
    return prog


def everything(prog):
    """{(function, entry status): (instances, findings, states)}."""
    global PROG
    PROG = prog
    res = {}
    for lev in levels(prog):
        tasks = []
        for n in lev:
            f = prog.funcs[n]
            if not analysed(f):
                continue
            tasks.append((n, "Z"))
            if f.status_arg is not None:
                tasks.append((n, "N"))
        tasks.sort(key=lambda t: -len(prog.funcs[t[0]].inst))
        for task, out, eff, summ, rel in pmap(one, tasks):
            res[task] = out
            prog.__dict__.setdefault("_runs", {})[task] = out
            if task[1] == "Z":
                if eff is not None:
                    prog.__dict__.setdefault("_effects", {})[task[0]] = eff
                if summ is not None:
                    prog.summaries[task[0]] = summ
                if rel is not None:
                    prog.__dict__.setdefault("_released", {})[task[0]] = rel
    return res


if __name__ == "__main__":
    import pickle
    import time
    from collections import Counter
    t0 = time.time()
    p = program()
    t1 = time.time()
    r = everything(p)
    print("program %.1f s, rules %.1f s" % (t1 - t0, time.time() - t1))
    c, d = Counter(), Counter()
    for k, (a, b, n) in r.items():
        for x in a:
            c[x] += len(a[x])
        for x in b:
            d[x] += len(b[x])
    print(c)
    print(d)
    pickle.dump(r, open(sys.argv[1] if len(sys.argv) > 1 else "/tmp/res.pkl", "wb"))
