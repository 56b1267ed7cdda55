"""C01: parallel loops are free of data races.

Every function that the compiler outlined for a parallel region is examined. The
address of each access to memory that the threads share is written as a
polynomial over the loop's iteration number, the counters of inner loops and
values that are the same for all iterations. Two iterations must not meet at an
address that one of them writes, unless by an atomic operation or under a lock.
"""
import re

import absint
import build_ir
from common import Result, Broken

NEW = set(absint.HEAP_NEW)
INIT = re.compile(r"^__kmpc_(for_static_init|dist_for_static_init)_\w+$")
NEXT = re.compile(r"^__kmpc_dispatch_next_\w+$")
REDUCE = re.compile(r"^__kmpc_reduce(_nowait)?$")
ATOMIC = re.compile(r"^(__kmpc_atomic_\w+|__atomic_\w+)$")
PURE = re.compile(r"^(llvm\.|omp_get_|__kmpc_|_ZSt|_ZNSt|_ZNKSt|log|exp|sin|cos|tan|sqrt|pow|floor|"
                  r"ceil|round|fabs|fmod|abs|atan|hypot|lrint|rint|__mul[sd]c3|__div[sd]c3)")
WRITES_FIRST = ("memcpy", "memset", "memmove", "llvm.memcpy", "llvm.memset", "llvm.memmove",
                "qsort", "snprintf", "sprintf")
# What these change is not data (see property G01 for the state that they keep).
QUIET = {"sdp_log_message"}
# Arrays that the threads write in parts which their tasks keep apart.
PARTS = {
    ("sdp_grid_wstack_wtower_degrid_all", "sdp_gridder_wtower_uvw_degrid", 10):
    "each task has its own rows, and each sub-grid its own channels",
}


def add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]:
            del r[m]
    return r


def mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=repr))
            r[k] = r.get(k, 0) + c * d
            if not r[k]:
                del r[k]
    return r


def const(n):
    return {(): n} if n else {}


def key(p):
    return tuple(sorted(((m, c) for m, c in p.items()), key=repr))


class Poly(object):
    """Values of one function as polynomials."""

    def __init__(self, prog, f):
        self.prog, self.f = prog, f
        self.memo = {}
        self.busy = set()
        self.bounds = set()     # local variables that hold the bounds of a shared loop
        self.stored = {}        # address key -> stores (filled by the region)
        for i in f.inst.values():
            if i.op in ("call", "invoke") and isinstance(i.ex, str):
                if INIT.match(i.ex):
                    self.bounds.add(i.ops[4])
                elif NEXT.match(i.ex):
                    self.bounds.add(i.ops[3])
        self.written = None

    def atom(self, *a):
        return {(tuple(a),): 1}

    def __call__(self, v):
        if not isinstance(v, int):
            c = v[0]
            if c == "i":
                return const(int(v[2:]))
            if c in ("n", "z"):
                return {}
            if c == "a" and v[1:].isdigit():
                return self.atom("arg", int(v[1:]))
            if c == "g":
                n, _, o = v[2:].partition("+")
                return add(self.atom("glob", n), const(int(o) if o else 0))
            return self.atom("const", v)
        if v in self.memo:
            return self.memo[v]
        if v in self.busy:
            return self.atom("self", v)
        self.busy.add(v)
        r = self.calc(self.f.inst[v])
        self.busy.discard(v)
        if not any(a[0] == "self" and a[1] in self.busy for m in r for a in m):
            self.memo[v] = r
        return r

    def calc(self, i):
        op = i.op
        if op == "getelementptr":
            if isinstance(i.ex, list) and len(i.ex) == 3:
                r = add(self(i.ops[0]), const(i.ex[0]))
                for x, sc in i.ex[1]:
                    r = add(r, self(x), sc)
                return r
            return self.atom("op", i.id)
        if op in ("bitcast", "addrspacecast", "freeze", "sext", "zext", "trunc", "ptrtoint",
                  "inttoptr"):
            return self(i.ops[0])
        if op in ("add", "sub"):
            return add(self(i.ops[0]), self(i.ops[1]), 1 if op == "add" else -1)
        if op == "mul":
            return mul(self(i.ops[0]), self(i.ops[1]))
        if op == "shl":
            b = self(i.ops[1])
            if set(b) <= {()}:
                return mul(self(i.ops[0]), const(1 << b.get((), 0)))
            return self.atom("op", i.id)
        if op in ("sdiv", "udiv", "srem", "urem"):
            a, b = self(i.ops[0]), self(i.ops[1])
            if b == const(1):
                return a if "div" in op else {}
            return self.atom(op[1:], key(a), key(b))
        if op == "alloca":
            return self.atom("alloca", i.id)
        if op == "load":
            p = self(i.ops[0])
            if any(a[0] == "alloca" for m in p for a in m):
                al = next(a[1] for m in p for a in m if a[0] == "alloca")
                if al in self.bounds:
                    return self.atom("bound", al)
                return self.atom("local", i.id)
            if key(p) == key(self.atom("arg", 0)) and ".omp" in self.f.args[0]["name"] + ".omp":
                if self.f.args[0]["name"] in (".global_tid.", ".global_tid"):
                    return self.atom("tid")
            return self.atom("ld", key(p))
        if op == "phi":
            ind = self.induction(i)
            if ind is not None:
                return ind
            ps = [self(o) for o in i.ops]
            ks = {key(p) for p in ps if not (len(p) == 1 and list(p)[0] == (("self", i.id),))}
            if len(ks) == 1:
                return dict(next(iter(ks)))
            return self.atom("phi", i.id)
        if op in ("call", "invoke"):
            n = i.ex if isinstance(i.ex, str) else None
            if n in NEW:
                return self.atom("new", i.id)
            if n in ("omp_get_thread_num", "__kmpc_global_thread_num"):
                return self.atom("tid")
            if n in ("sdp_mem_data", "sdp_mem_data_const"):
                return self.atom("data", key(self(i.ops[0])))
            if n and (n.startswith("sdp_mem_") and not n.startswith("sdp_mem_create")):
                return self.atom("fn", n, tuple(key(self(o)) for o in i.ops))
            return self.atom("call", i.id)
        return self.atom("op", i.id)

    def induction(self, i):
        """start + step * counter of the loop, for a variable that moves by a fixed step."""
        f = self.f
        if i.block not in f.headers:
            return None
        start, steps = [], []
        for o, p in zip(i.ops, i.ex):
            (steps if (p, i.block) in f.back else start).append(o)
        if not steps or not start:
            return None
        st = {key(self(o)) for o in start}
        if len(st) != 1:
            return None
        me = (("self", i.id),)
        ds = set()
        for o in steps:
            p = self(o)
            if p.get(me) != 1:
                return None
            d = dict(p)
            del d[me]
            if any(a[0] == "self" for m in d for a in m):
                return None
            ds.add(key(d))
        if len(ds) != 1:
            return None
        base = dict(next(iter(st)))
        step = dict(next(iter(ds)))
        if not step:
            return base
        if len(base) == 1 and list(base)[0] and list(base)[0][0][0] == "bound":
            return mul(step, self.atom("iv", i.id)) if False else self.atom("iv", i.id)
        return add(base, mul(step, self.atom("k", i.id)))


DEP, MAYBE, NONE = "yes", "maybe", "no"


def worst(xs):
    xs = set(xs)
    return DEP if DEP in xs else MAYBE if MAYBE in xs else NONE


class Region(object):
    def __init__(self, prog, f, effects, caller=None):
        self.prog, self.f, self.effects, self.caller = prog, f, effects, caller
        self.p = Poly(prog, f)
        self.dmemo = {}
        self.live = self.reached()
        self.locks = self.held()

    def reached(self):
        """Blocks that are not behind a comparison of two constants (unrolled loops)."""
        f, seen, work = self.f, set(), []
        if f.blocks:
            work = [f.rpo[0]]
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            t, nxt = f.blocks[b][-1], f.succ[b]
            if t.op == "br" and t.ops and t.ops[0] in ("i:0", "i:1", "i:-1"):
                nxt = [t.ex[1] if t.ops[0] == "i:0" else t.ex[0]]
            elif t.op == "br" and t.ops and isinstance(t.ops[0], int):
                c = f.inst[t.ops[0]]
                if c.op == "icmp":
                    x, y = self.p(c.ops[0]), self.p(c.ops[1])
                    if set(x) <= {()} and set(y) <= {()}:
                        x, y = x.get((), 0), y.get((), 0)
                        v = {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y,
                             "ge": x >= y}.get(c.ex[-2:])
                        if v is not None and (c.ex[0] != "u" or (x >= 0 and y >= 0)):
                            nxt = [t.ex[0] if v else t.ex[1]]
            work.extend(nxt)
        return seen

    # -- dependence of a value on the iteration or the thread -----------------
    def dep(self, p):
        return worst(self.adep(a) for m in (p if isinstance(p, dict) else dict(p)) for a in m)

    def adep(self, a):
        if a in self.dmemo:
            return self.dmemo[a]
        self.dmemo[a] = NONE
        k = a[0]
        if k in ("iv", "tid", "bound"):
            r = DEP
        elif k in ("arg", "glob", "const", "alloca"):
            r = NONE
        elif k == "k":
            r = NONE
        elif k in ("div", "rem"):
            r = worst([self.dep(a[1]), self.dep(a[2])])
        elif k in ("ld", "data"):
            r = self.dep(a[1])
        elif k == "fn":
            r = worst([self.dep(x) for x in a[2]] or [NONE])
        elif k == "new":
            r = DEP
        elif k == "local":
            r = MAYBE
        elif k == "phi":
            r = worst([self.dep(self.p(o)) for o in self.f.inst[a[1]].ops] + [MAYBE])
        elif k in ("op", "call"):
            i = self.f.inst[a[1]]
            ops = [o for o in i.ops if isinstance(o, int) or o[0] == "a"]
            ds = [self.dep(self.p(o)) for o in ops]
            if k == "call" and not (isinstance(i.ex, str) and PURE.match(i.ex)):
                ds.append(MAYBE)
            r = worst(ds or [NONE])
        else:
            r = MAYBE
        self.dmemo[a] = r
        return r

    def varies(self, a):
        """The value may change within one iteration."""
        k = a[0]
        if k in ("k", "phi", "local", "self"):
            return True
        if k in ("div", "rem"):
            return any(self.varies(b) for x in a[1:3] for m, _ in x for b in m)
        if k in ("ld", "data"):
            return any(self.varies(b) for m, _ in a[1] for b in m)
        if k == "fn":
            return any(self.varies(b) for x in a[2] for m, _ in x for b in m)
        if k in ("op", "call"):
            i = self.f.inst[a[1]]
            return any(self.varies(b) for o in i.ops if isinstance(o, int) for m in self.p(o)
                       for b in m)
        return False

    # -- locks ----------------------------------------------------------------
    def held(self):
        """Locks held at each instruction on every path."""
        f = self.f
        if not f.blocks:
            return {}
        ins = {f.rpo[0]: frozenset()}
        at = {}
        reduce_ = {}
        for i in f.inst.values():
            if i.op == "call" and isinstance(i.ex, str) and REDUCE.match(i.ex):
                reduce_[i.id] = True
        changed = True
        while changed:
            changed = False
            for b in f.rpo:
                if b not in ins:
                    continue
                cur = ins[b]
                for i in f.blocks[b]:
                    at[i.id] = cur
                    if i.op in ("call", "invoke") and isinstance(i.ex, str):
                        if i.ex in ("__kmpc_critical", "__kmpc_critical_with_hint"):
                            cur = cur | {("critical", str(i.ops[2]))}
                        elif i.ex == "__kmpc_end_critical":
                            cur = cur - {("critical", str(i.ops[2]))}
                        elif i.ex == "sdp_mutex_lock":
                            cur = cur | {("mutex", key(self.p(i.ops[0])))}
                        elif i.ex == "sdp_mutex_unlock":
                            cur = cur - {("mutex", key(self.p(i.ops[0])))}
                        elif i.ex in ("__kmpc_single", "__kmpc_master", "__kmpc_masked"):
                            cur = cur | {("single",)}
                        elif i.ex in ("__kmpc_end_single", "__kmpc_end_master",
                                      "__kmpc_end_masked"):
                            cur = cur - {("single",)}
                        elif i.ex.startswith("__kmpc_end_reduce"):
                            cur = cur - {("reduce",)}
                t = f.blocks[b][-1]
                for s in f.succ[b]:
                    c = cur
                    if t.op == "switch" and t.ops[0] in reduce_ and \
                            [1, s] in [list(x) for x in t.ex[1:]]:
                        c = cur | {("reduce",)}
                    n = c if s not in ins else ins[s] & c
                    if s not in ins or n != ins[s]:
                        ins[s] = n
                        changed = True
        return at

    # -- accesses -------------------------------------------------------------
    def accesses(self):
        """(kind, instruction, address, what is read or written)"""
        for b in self.f.rpo:
            if b not in self.live:
                continue
            for i in self.f.blocks[b]:
                if i.op == "store":
                    yield "w", i, self.p(i.ops[1]), None
                elif i.op == "load":
                    yield "r", i, self.p(i.ops[0]), None
                elif i.op in ("call", "invoke") and isinstance(i.ex, str):
                    if i.ex.startswith(WRITES_FIRST):
                        yield "w", i, self.p(i.ops[0]), None
                    elif ATOMIC.match(i.ex) or i.ex.startswith("sdp_mutex") or \
                            absint.is_timer(i.ex):
                        continue
                    else:
                        wr, rd = self.effects(i.ex)
                        for k in wr:
                            if k == "glob":
                                yield "g", i, None, None
                            elif k < len(i.ops):
                                yield "c", i, self.p(i.ops[k]), k
                        for k in rd:
                            if k[0] < len(i.ops) and k[0] not in wr:
                                yield "cr", i, self.p(i.ops[k[0]]), k

    def root(self, p):
        """The pointer that an address is made from."""
        c = [m[0] for m, n in p.items() if len(m) == 1 and n == 1 and
             m[0][0] in ("arg", "glob", "alloca", "new", "ld", "data", "call", "phi", "local",
                         "op", "self", "fn") and self.pointer(m[0])]
        return c[0] if len(c) == 1 else None

    def pointer(self, a):
        if a[0] == "arg":
            return self.f.args[a[1]]["type"] == "ptr"
        if a[0] in ("glob", "alloca", "new", "data"):
            return True
        if a[0] in ("call", "phi", "local", "op", "self"):
            return self.f.inst[a[1]].ty == "ptr"
        if a[0] == "ld":
            return a in self.ptrs
        return False

    def pointers(self):
        self.ptrs = set()
        for i in self.f.inst.values():
            if i.op == "load" and i.ty == "ptr":
                for m in self.p(i.id):
                    if len(m) == 1 and m[0][0] == "ld":
                        self.ptrs.add(m[0])

    def run(self):
        f = self.f
        self.pointers()
        out = []     # (verdict, what, instruction)
        acc = list(self.accesses())
        stores = {}
        for kind, i, p, k in acc:
            if kind == "g":
                if not self.locks.get(i.id):
                    out.append(("bad", "calls %s, which changes data that is not of this call"
                                % i.ex, i, None))
                continue
            if kind in ("r", "cr"):
                continue
            root = self.root(p)
            if root is None:
                out.append(("und", "address", i, None))
                continue
            if root[0] in ("alloca", "new"):
                continue
            if kind == "c" and self.is_status(i, k):
                continue
            if kind == "w" and self.status_addr(root):
                continue
            stores.setdefault(root, []).append((kind, i, p, k))
            if self.locks.get(i.id):
                out.append(("ok", "locked", i, root))
                continue
            v, why = self.single(kind, i, p, k, root)
            out.append((v, why, i, root))
        for root, ws in stores.items():
            rs = [(kind, i, p, k) for kind, i, p, k in acc
                  if p is not None and self.root(p) == root]
            for kind, i, p, k in ws:
                for kind2, i2, p2, k2 in rs:
                    if i2 is i or kind == "c" or kind2 in ("c", "cr"):
                        continue
                    l1, l2 = self.locks.get(i.id, ()), self.locks.get(i2.id, ())
                    if set(l1) & set(l2):
                        continue
                    if l1 and not l2 and self.dep(p2) != DEP:
                        out.append(("bad", "is also accessed without the lock", i2, root))
                        continue
                    v, why = self.pair(p, p2, i, i2)
                    out.append((v, why, i2, root))
        out.extend(self.calls(acc, stores))
        return out

    def calls(self, acc, stores):
        """Objects that one thread changes by a call and others read meanwhile."""
        if any(i.op == "call" and i.ex == "__kmpc_barrier" for i in self.f.inst.values()):
            return
        for root, ws in stores.items():
            ws = [w for w in ws if w[0] == "c"]
            if not ws:
                continue
            mine = self.adep(root)
            for kind, i2, p2, k2 in acc:
                if kind not in ("r", "cr") or (kind == "cr" and (not k2[1] or QUERY.match(i2.ex))):
                    continue
                r2 = self.root(p2)
                if r2 is None:
                    continue
                if kind == "r":
                    # a direct read of the elements behind the handle
                    if r2[0] != "data" or self.root(dict(r2[1])) is None:
                        continue
                    r2 = self.root(dict(r2[1]))
                if mine == NONE and r2 == root:
                    l2 = set(self.locks.get(i2.id, ()))
                    if any(not l2 & set(self.locks.get(w[1].id, ())) for w in ws):
                        if (self.caller, ws[0][1].ex, ws[0][3]) in PARTS:
                            continue
                        yield "bad", "is read while another thread may change it", i2, root
                elif mine == DEP and r2 != root and root[0] == r2[0] == "ld" and \
                        self.adep(r2) == NONE:
                    a, b = self.root(dict(root[1])), self.root(dict(r2[1]))
                    if a is not None and a == b and self.adep(a) == NONE:
                        yield "bad", "is another thread's, which may change it meanwhile", i2, r2

    def is_status(self, i, k):
        """The error status of a call (sticky; stated as outside the property)."""
        g = self.prog.funcs.get(i.ex)
        return g is not None and g.status_arg == k

    def status_addr(self, root):
        if root[0] == "arg":
            d = self.f.args[root[1]]["dbg"]
            return d.endswith("sdp_Error")
        if root[0] == "ld" and len(root[1]) == 1 and root[1][0][0] and \
                root[1][0][0][0][0] == "arg":
            return self.f.args[root[1][0][0][0][1]]["dbg"].endswith("sdp_Error")
        return False

    def shared_terms(self, p):
        """Coefficients of the iteration number, and those of what varies within one."""
        iv, inner, odd = {}, {}, []
        for m, c in p.items():
            vs = [a for a in m if self.adep(a) != NONE or self.varies(a)]
            if not vs:
                continue
            rest = tuple(a for a in m if a not in vs) if len(vs) == 1 else None
            if rest is None:
                odd.append(m)
                continue
            a = vs[0]
            if a[0] in ("iv", "tid"):
                iv.setdefault(a, {})[rest] = c
            elif a[0] in ("div", "rem") and self.linear_iv(a):
                iv.setdefault(a, {})[rest] = c
            else:
                inner.setdefault(a, {})[rest] = c
        return ({a: key(x) for a, x in iv.items()}, {a: key(x) for a, x in inner.items()}, odd)

    def linear_iv(self, a):
        return any(m and m[0][0] in ("iv", "tid") for m, _ in a[1]) and \
            self.dep(a[2]) == NONE and not any(self.varies(b) for m, _ in a[1] for b in m)

    def single(self, kind, i, p, k, root):
        """No two iterations write to the same address with this access."""
        if self.adep(root) == DEP:
            return "ok", "own object"
        if kind == "c":
            if self.adep(root) == MAYBE:
                return "und", "object"
            if (self.caller, i.ex, k) in PARTS:
                return "ok", "own part"
            return "bad", "is changed by %s in every iteration" % i.ex
        d = self.dep(p)
        if d == NONE:
            if self.guarded(i):
                return "und", "guarded"
            return "bad", "is written by every iteration"
        iv, inner, odd = self.shared_terms(p)
        if not iv:
            if self.rmw(i, p):
                return "bad", "is updated at a place that depends on data"
            return "und", "data-dependent place"
        if all(a[0] == "div" for a in iv):
            return "bad", "is written at the same place by several iterations"
        if all(a[0] == "rem" for a in iv):
            return "bad", "is written at the same place by several iterations"
        if odd:
            return "und", "place"
        for a, c in inner.items():
            for b, e in iv.items():
                if c == e or c == key({m: -n for m, n in dict(e).items()}):
                    return "bad", "is written at places that iterations share"
        return "ok", "own elements"

    def rmw(self, i, p):
        """The value stored is made from what was at the address."""
        seen, work = set(), [i.ops[0]]
        while work:
            v = work.pop()
            if not isinstance(v, int) or v in seen:
                continue
            seen.add(v)
            x = self.f.inst[v]
            if x.op == "load":
                if key(self.p(x.ops[0])) == key(p):
                    return True
                continue
            if x.op == "phi" or len(seen) > 60:
                continue
            work.extend(x.ops)
        return False

    def guarded(self, i):
        """Only reached by one iteration or thread (if (i == ...), if (thread == 0))."""
        f = self.f
        for b in f.rpo:
            t = f.blocks[b][-1]
            if t.op != "br" or not t.ops or not isinstance(t.ops[0], int):
                continue
            c = f.inst[t.ops[0]]
            if c.op != "icmp" or c.ex not in ("eq", "ne"):
                continue
            d = add(self.p(c.ops[0]), self.p(c.ops[1]), -1)
            if self.dep(d) != DEP:
                continue
            s = t.ex[0] if c.ex == "eq" else t.ex[1]
            if f.dominates(s, i.block):
                return True
        return False

    def pair(self, w, p, i, i2):
        """Another access to the same object does not meet this write from another iteration."""
        iv, inner, odd = self.shared_terms(w)
        iv2, inner2, odd2 = self.shared_terms(p)
        if odd or odd2 or not iv:
            return "und", "pair"
        if not iv2:
            d = add(p, w, -1)
            if self.dep(p) == NONE and i2.op == "load" and \
                    any(self.in_loop(i2, a) for a in iv):
                if self.far(d, iv):
                    return "ok", "another part"
                return "bad", "is read at a place that another iteration writes"
            return "und", "pair"
        if iv != iv2:
            return "und", "pair"
        d = add(p, w, -1)
        rest = {m: c for m, c in d.items()
                if not any(self.varies(a) or self.adep(a) != NONE for a in m)}
        for x in (inner2, inner):
            for a, c in x.items():
                if x is inner and a in inner2 and inner2[a] == c:
                    continue
                for b, e in iv.items():
                    if c == e or c == key({m: -n for m, n in dict(e).items()}):
                        return "bad", "is read at places that other iterations write"
        for b, e in iv.items():
            if rest and multiple(rest, dict(e)):
                return "bad", "is accessed at a place that another iteration writes"
        return "ok", "own elements"

    def in_loop(self, i, a):
        return a[0] == "iv" and i.block in self.f.loops.get(self.f.inst[a[1]].block, ())

    def far(self, d, iv):
        """A constant distance that is no multiple of the step (another field)."""
        rest = {m: c for m, c in d.items() if not any(self.varies(a) or self.adep(a) != NONE
                                                      for a in m)}
        for b, e in iv.items():
            e = dict(e)
            if set(e) == {()} and set(rest) <= {()} and rest.get((), 0) % e[()]:
                return True
        return False


def multiple(a, b):
    """a = n * b for a whole number n."""
    if set(a) != set(b):
        return False
    ns = set()
    for m in a:
        if a[m] % b[m]:
            return False
        ns.add(a[m] // b[m])
    return len(ns) == 1


QUERY = re.compile(r"^sdp_mem_(type|location|num_dims|num_elements|shape_dim|stride_\w+|is_\w+|"
                   r"type_size|data|data_const|check_\w+)$")


def make_effects(prog):
    """Which arguments (or data outside the call) a function may change or read, by name:
    (changed, read), where a read argument comes with whether it is what the argument
    points to, or something reached from there."""
    memo = {}
    none = (frozenset(), frozenset())

    def effects(name):
        if name in memo:
            return memo[name]
        memo[name] = none
        f = prog.funcs.get(name)
        if f is None or not f.blocks:
            return none
        r = Region(prog, f, effects)
        r.pointers()
        out, reads = set(), set()

        def owner(p, n=0):
            root = r.root(p)
            if root is None or n > 8:
                return None
            if root[0] == "arg":
                return (root[1], n > 0)
            if root[0] == "glob":
                return ("glob", False)
            if root[0] in ("ld", "data"):
                return owner(dict(root[1]), n + 1)
            return None
        for kind, i, p, k in r.accesses():
            if r.locks.get(i.id) or name in QUIET:
                continue
            if kind == "g":
                out.add("glob")
                continue
            o = owner(p) if p is not None else None
            if o is None:
                continue
            if kind in ("r", "cr"):
                if not QUERY.match(name) and o[0] != "glob":
                    reads.add((o[0], o[1] or (kind == "cr" and k[1])))
            else:
                out.add(o[0])
        memo[name] = (frozenset(out), frozenset(reads))
        return memo[name]
    return effects


def balance(prog, f):
    """Locks that some path leaves held, or takes or gives back twice."""
    p = Poly(prog, f)
    ins, work = {f.rpo[0]: {frozenset()}}, [f.rpo[0]]
    out, n = {}, 0
    while work:
        b = work.pop()
        for st in list(ins[b]):
            cur = st
            for i in f.blocks[b]:
                if i.op in ("call", "invoke") and i.ex in ("sdp_mutex_lock", "sdp_mutex_unlock"):
                    k = key(p(i.ops[0]))
                    n += 1
                    if (i.ex == "sdp_mutex_lock") == (k in cur):
                        out[i.id] = (i, "takes a lock twice" if k in cur else
                                     "gives back a lock that it does not hold")
                    cur = cur | {k} if i.ex == "sdp_mutex_lock" else cur - {k}
                elif i.op == "ret" and cur:
                    out[i.id] = (i, "may return while it holds a lock")
            for s in f.succ[b]:
                if cur not in ins.setdefault(s, set()):
                    ins[s].add(cur)
                    if s not in work:
                        work.append(s)
    return n, list(out.values())


SELF_BAD = {"lock", "scalar", "neighbour", "scatter", "unlocked", "call", "halves"}
SELF_GOOD = {"own", "reduction", "locked", "private"}


def label(root):
    """A name for an object that does not change with the names of variables."""
    return {"arg": "shared variable", "glob": "global variable", "data": "array",
            "ld": "shared object"}.get(root[0], "object") if root else "data"


def run(tier):
    res = Result("no two threads of a parallel region meet at an address that one of them writes")
    prog = absint.Program(build_ir.build("omp"), invariants=False)
    seq = absint.Program(build_ir.build("seq"), invariants=False)
    effects = make_effects(seq)
    regions = {}
    for f in prog.funcs.values():
        for i in f.inst.values():
            if i.op in ("call", "invoke") and isinstance(i.ex, str) and \
                    i.ex.startswith("__kmpc_fork_"):
                t = i.ops[2]
                if isinstance(t, str) and t.startswith("g:"):
                    regions.setdefault(t[2:], f)
                else:
                    raise Broken("parallel region of unknown code in " + f.dname)
    und = res.info.setdefault("undecided", [])
    hit, clean = set(), set()
    funs, count, nreg = set(), {"ok": 0, "und": 0, "bad": 0}, 0
    for name, caller in sorted(regions.items()):
        f = prog.funcs.get(name)
        if f is None:
            raise Broken("parallel region %s is not in the program" % name)
        m = re.search(r"sdp_st_race_(bad|good)_(\w+?)(\.|\(|$)", name)
        where_fun = re.sub(r"[<(].*", "", caller.dname).split(" ")[-1]
        clean.add(m.group(2)) if m else None
        nreg += not m
        for v, why, i, root in Region(prog, f, effects, where_fun).run():
            file, line = f.where(i.loc)[:2]
            loc = "%s:%s" % (file, line)
            if m:
                if v == "bad":
                    hit.add((m.group(1), m.group(2)))
                continue
            funs.add(where_fun)
            count[v] += 1
            k = "%s:%s" % (where_fun, label(root))
            if v == "und":
                und.append("%s %s (%s)" % (k, why, loc))
                continue
            res.inst("%s:%s" % (k, loc), loc)
            if v == "bad":
                res.find(("%s:%s" % (k, why)).replace(" ", "_"),
                         "%s: in a parallel region, a %s %s" % (where_fun, label(root), why), loc)
    nlock = 0
    for name, f in sorted(prog.funcs.items()):
        if not f.blocks or not any(i.ex in ("sdp_mutex_lock", "sdp_mutex_unlock")
                                   for i in f.inst.values() if i.op in ("call", "invoke")):
            continue
        n, bad = balance(prog, f)
        where_fun = re.sub(r"[<(].*", "", f.dname).split(" ")[-1]
        where_fun = re.sub(r"\.omp_outlined.*", "", where_fun)
        m = re.search(r"sdp_st_lock_(bad|good)", name)
        if m:
            clean.add("lock")
            for i, why in bad:
                hit.add((m.group(1), "lock"))
            continue
        nlock += 1
        res.inst("lock:" + where_fun, "%s:%s" % f.where(None)[:2])
        for i, why in bad:
            res.find(("lock:%s:%s" % (where_fun, why)).replace(" ", "_"),
                     "%s %s" % (where_fun, why), "%s:%s" % f.where(i.loc)[:2])
    res.floor("functions that take a lock", nlock, 2)
    if SELF_BAD - {n for g, n in hit if g == "bad"} or [n for g, n in hit if g == "good"] or \
            (SELF_BAD | SELF_GOOD) - clean:
        raise Broken("self-test: reported %s of %s" % (sorted(hit), sorted(clean)))
    res.floor("parallel regions", nreg, 50)
    res.floor("functions with a parallel region", len(funs), 20)
    res.floor("accesses", count["ok"], 700)
    res.info.update({"accesses": count, "functions": len(funs), "regions": nreg,
                     "self_test": sorted("%s %s" % x for x in hit)})
    res.assumptions = [
        "clang 18 outlines the parallel regions that the production compiler runs",
        "distinct array and pointer arguments of one call do not overlap",
        "dimensions and strides of an array keep its elements apart",
        "the message log and the timers, and the error status that threads only set, are not data",
    ] + ["%s: %s" % (" / ".join(map(str, k)), v) for k, v in sorted(PARTS.items())]
    res.explanation = ("Every region that the compiler outlined for threads, with the address of "
                       "every shared load, store and call effect as a polynomial over the "
                       "iteration number.")
    return res
