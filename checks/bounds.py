"""A02: arrays are accessed within their dimensions."""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import absint
import analyse
import rules
from common import Broken, Result
from races import add, const, key, mul

SIZE = rules.SIZE
WIDTH = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "float": 4, "double": 8, "ptr": 8}


def atom(*a):
    return {(tuple(a),): 1}


class Bounds(absint.Hooks):
    def __init__(self, prog, fn):
        self.prog, self.fn = prog, fn
        self.names = rules.Names(prog, fn)
        self.rows = {}
        self.conds = {}
        self.memo = {}
        self.done = {}
        self.loads = set()
        self.wilds = {}
        self.first = {}
        self.sources = {}
        self.open = []

    # -- values as polynomials --------------------------------------------------
    def absval(self, v, it, st, iid):
        v = it.canon(v, st) if v[0] == "atom" else v
        if v[0] == "i":
            return const(v[1])
        if v[0] == "atom":
            d = it.domain(v, st)
            if d is not None and len(d) == 1:
                return const(next(iter(d)))
            r = st.facts.get(("rng", v))
            if r and r[0] is not None and r[0] == r[1]:
                return const(r[0])
            return atom(*v)
        if v[0] in ("arg", "field"):
            r = st.facts.get(("rng", v))
            if r and r[0] is not None and r[0] == r[1]:
                return const(r[0])
            return atom("val", v)
        if v[0] == "op" and v[1] in ("add", "sub", "mul"):
            a, b = self.absval(v[2], it, st, iid), self.absval(v[3], it, st, iid)
            return mul(a, b) if v[1] == "mul" else add(a, b, 1 if v[1] == "add" else -1)
        if v[0] == "top" and isinstance(v[1], int) and v[1] != iid:
            return self.poly(v[1], it, st)
        if v[0] == "ite":
            c = it.truth(v[1], st)
            if c is not None:
                return self.absval(v[2 if c else 3], it, st, iid)
            if v[1][0] == "cmp":
                return self.choice(v[1][1], *[self.absval(x, it, st, iid) for x in
                                              (v[1][2], v[1][3], v[2], v[3])])
        if v[0] == "cmp":
            c = it.truth(v, st)
            if c is not None:
                return const(int(c))
            return self.choice(v[1], self.absval(v[2], it, st, iid),
                               self.absval(v[3], it, st, iid), const(1), {})
        if v[0] == "op" and v[1] in ("sdiv", "srem"):
            return atom(v[1][1:], key(self.absval(v[2], it, st, iid)),
                        key(self.absval(v[3], it, st, iid)))
        return atom("v", iid)

    @staticmethod
    def choice(pred, x, y, a, b):
        if a == b:
            return a
        return atom("sel", pred, key(x), key(y), key(a), key(b))

    def poly(self, v, it, st):
        if not isinstance(v, int):
            return self.absval(it.val(v, st), it, st, v)
        k = v
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = atom("v", v)
        r = self.memo[k] = self.calc(self.fn.inst[v], it, st)
        return r

    def calc(self, i, it, st):
        op = i.op
        if op in ("sext", "zext", "trunc", "freeze", "bitcast"):
            return self.poly(i.ops[0], it, st)
        if op in ("add", "sub"):
            return add(self.poly(i.ops[0], it, st), self.poly(i.ops[1], it, st),
                       1 if op == "add" else -1)
        if op == "mul":
            return mul(self.poly(i.ops[0], it, st), self.poly(i.ops[1], it, st))
        if op == "shl":
            b = self.poly(i.ops[1], it, st)
            if set(b) <= {()}:
                return mul(self.poly(i.ops[0], it, st), const(1 << b.get((), 0)))
        if op in ("sdiv", "udiv", "srem", "urem"):
            a, b = self.poly(i.ops[0], it, st), self.poly(i.ops[1], it, st)
            if set(a) <= {()} and set(b) <= {()} and b.get((), 0) > 0 and a.get((), 0) >= 0:
                x, y = a.get((), 0), b[()]
                return const(x // y if "div" in op else x % y)
            if b == const(1):
                return a if "div" in op else {}
            return atom(op[1:], key(a), key(b))
        if op == "extractvalue" and i.ex == [0]:
            g = self.fn.inst[i.ops[0]] if isinstance(i.ops[0], int) else None
            if g is not None and g.op == "call" and "mul.with.overflow" in str(g.ex):
                return mul(self.poly(g.ops[0], it, st), self.poly(g.ops[1], it, st))
        if op == "select" and num(i.ops[1]) == -1 and isinstance(i.ops[2], int) and \
                self.fn.inst[i.ops[2]].op == "extractvalue":
            # the size of an array that does not fit is -1, which no request can satisfy
            return self.poly(i.ops[2], it, st)
        if op == "icmp" and all(isinstance(o, str) and o.startswith("i:") or isinstance(o, int) and
                                self.fn.inst[o].ty in ("i32", "i64") for o in i.ops):
            c = it.truth(it.val(i.id, st), st)
            if c is not None:
                return const(int(c))
            return self.choice(i.ex, self.poly(i.ops[0], it, st), self.poly(i.ops[1], it, st),
                               const(1), {})
        if op == "fptosi":
            r = self.half(i, it, st)
            if r is not None:
                return r
            # the same number cut to different widths
            return atom("v", self.first.setdefault(self.form(i.ops[0]), i.id))
        if op == "phi" and i.block in self.fn.headers:
            r = self.induction(i, it, st)
            if r is not None:
                return r
        if op == "select":
            c = it.truth(it.val(i.ops[0], st), st)
            if c is not None:
                return self.poly(i.ops[1] if c else i.ops[2], it, st)
            g = self.fn.inst[i.ops[0]] if isinstance(i.ops[0], int) else None
            if g is not None and g.op == "icmp" and i.ty in ("i32", "i64") and \
                    all(not isinstance(o, int) or self.fn.inst[o].ty in ("i32", "i64")
                        for o in g.ops):
                return self.choice(g.ex, *[self.poly(o, it, st) for o in
                                           (g.ops[0], g.ops[1], i.ops[1], i.ops[2])])
            return atom("v", i.id)
        if op == "phi" and i.ty in ("i32", "i64"):
            m = self.either(i)
            if m is not None:
                g, x, y = m
                r = it.val(i.id, st)
                if r[0] == "top" or not it.bool_stable(it.val(g.id, st)):
                    # nothing was noted of the condition: both outcomes are possible
                    return self.choice(g.ex, *[self.poly(o, it, st) for o in
                                               (g.ops[0], g.ops[1], x, y)])
                return self.absval(r, it, st, i.id)
        return self.absval(it.val(i.id, st), it, st, i.id)

    def half(self, i, it, st):
        """Half of an integer, rounded."""
        v, name = i.ops[0], ""
        g = self.fn.inst.get(v) if isinstance(v, int) else None
        if g is not None and g.op == "call":
            name = str(g.ex)
            v = g.ops[0] if g.ops else None
            g = self.fn.inst.get(v) if isinstance(v, int) else None
        if g is None or g.op != "fmul" or "f:0.5" not in g.ops or \
                name and not re.match(r"llvm\.(floor|ceil|round|trunc)\.f64$", name):
            return None
        x = [o for o in g.ops if o != "f:0.5"]
        c = self.fn.inst.get(x[0]) if len(x) == 1 and isinstance(x[0], int) else None
        if c is None or c.op != "sitofp":
            return None
        n = self.poly(c.ops[0], it, st)
        h = n if not re.search("ceil|round", name) else add(n, const(1))
        return self.choice("sge", n, {}, atom("div", key(h), key(const(2))), atom("v", i.id))

    def either(self, i):
        """The integer condition that decides between the two values at a merge."""
        f = self.fn
        if len(i.ops) != 2 or i.block in f.headers or f.dominators().get(i.block) is None:
            return None
        d = f.dominators()[i.block]
        t = f.blocks[d][-1]
        if t.op != "br" or not t.ops or len(set(t.ex)) != 2:
            return None
        g = f.inst.get(t.ops[0]) if isinstance(t.ops[0], int) else None
        if g is None or g.op != "icmp" or \
                not all(not isinstance(o, int) or f.inst[o].ty in ("i32", "i64") for o in g.ops):
            return None
        side = {}
        for o, p in zip(i.ops, i.ex):
            for n in (0, 1):
                s = t.ex[n]
                if p == d and s == i.block or p != d and s != i.block and \
                        len(f.pred[s]) == 1 and f.dominates(s, p):
                    side[n] = o
        return (g, side[0], side[1]) if len(side) == 2 else None

    def induction(self, i, it, st):
        f = self.fn
        start = [o for o, p in zip(i.ops, i.ex) if (p, i.block) not in f.back]
        steps = [o for o, p in zip(i.ops, i.ex) if (p, i.block) in f.back]
        if not start or not steps or i.ty == "ptr":
            return None
        ps = {key(self.poly(o, it, st)) for o in start}
        if len(ps) != 1:
            return None
        me = (("v", i.id),)
        ds = set()
        for o in steps:
            # not what was noted on the way here, when a step is looked at before its counter
            saved = self.memo
            self.open.append(i.id)
            self.memo = {x: atom("v", x) for x in self.open}
            d = dict(self.poly(o, it, st))
            self.open.pop()
            self.memo = saved
            if d.pop(me, 0) != 1 or any(a == me[0] for m in d for a in m):
                return None
            ds.add(key(d))
        if len(ds) != 1:
            return None
        step = dict(next(iter(ds)))
        if not all(self.stable(a, f.loops[i.block]) for a in atoms(step)):
            return None
        base = dict(next(iter(ps)))
        return add(base, mul(step, atom("k", i.block)))

    def address(self, v, it, st):
        """(array, offset polynomial) of a pointer value."""
        off = {}
        n = 0
        while n < 30:
            n += 1
            if not isinstance(v, int):
                break
            g = self.fn.inst[v]
            if g.op == "getelementptr" and isinstance(g.ex, list) and len(g.ex) == 3:
                off = add(off, const(g.ex[0]))
                for x, sc in g.ex[1]:
                    off = add(off, self.poly(x, it, st), sc)
                v = g.ops[0]
            elif g.op in ("bitcast", "freeze"):
                v = g.ops[0]
            elif g.op == "phi" and g.block in self.fn.headers:
                r = self.pointer_phi(g, it, st)
                if r is None:
                    break
                v, o = r
                off = add(off, o)
            else:
                break
        p = it.val(v, st)
        if p[0] == "p" and p[1][0] in ("data", "heap", "alloca") and p[2] is not None:
            return p[1][1] if p[1][0] == "data" else p[1], add(off, const(p[2]))
        return None, off

    def pointer_phi(self, i, it, st):
        f = self.fn
        start = {o for o, p in zip(i.ops, i.ex) if (p, i.block) not in f.back}
        steps = [o for o, p in zip(i.ops, i.ex) if (p, i.block) in f.back]
        if len(start) != 1 or not steps:
            return None
        ds = set()
        for v in steps:
            off = {}
            while isinstance(v, int) and v != i.id:
                g = self.fn.inst[v]
                if g.op == "getelementptr" and isinstance(g.ex, list) and len(g.ex) == 3:
                    off = add(off, const(g.ex[0]))
                    for x, sc in g.ex[1]:
                        off = add(off, self.poly(x, it, st), sc)
                    v = g.ops[0]
                else:
                    return None
            if v != i.id:
                return None
            ds.add(key(off))
        if len(ds) != 1:
            return None
        step = dict(ds.pop())
        if not all(self.stable(a, f.loops[i.block]) for a in atoms(step)):
            return None
        return start.pop(), mul(step, atom("k", i.block))

    # -- conditions that hold at a block ----------------------------------------
    def dominating(self, b):
        if b in self.conds:
            return self.conds[b]
        f, out = self.fn, []
        for d in range(len(f.blocks)):
            if not f.dominates(d, b):
                continue
            t = f.blocks[d][-1]
            if t.op != "br" or not t.ops or len(f.succ[d]) != 2 or f.succ[d][0] == f.succ[d][1]:
                continue
            for s, want in ((t.ex[0], True), (t.ex[1], False)):
                if f.dominates(s, b) and all(p == d or f.dominates(s, p) for p in f.pred[s]) \
                        and s != d:
                    out.append((t.ops[0], want))
        self.conds[b] = out
        return out

    @staticmethod
    def relation(pred, a, b, want):
        """Polynomials that are not negative when a comparison has an outcome."""
        if not want:
            pred = absint.NEG[pred]
        d, e = add(b, a, -1), add(a, b, -1)
        if pred in ("slt", "ult"):
            return [add(d, const(1), -1)]
        if pred in ("sle", "ule"):
            return [d]
        if pred in ("sgt", "ugt"):
            return [add(e, const(1), -1)]
        if pred in ("sge", "uge"):
            return [e]
        return [d, e] if pred == "eq" else []

    def stable(self, a, body):
        """The atom has one value in all turns of a loop."""
        if a[0] == "k":
            return a[1] not in body
        if a[0] == "v":
            return isinstance(a[1], int) and self.fn.inst[a[1]].block not in body
        if a[0] in ("div", "rem", "sel"):
            return all(self.stable(y, body) for x in a[1:] if isinstance(x, tuple)
                       for y in atoms(dict(x)))
        return a[0] in ("val", "atom")

    def turns(self, b, it, st):
        """Per loop around or before a block: what held in the turn before, if there was one."""
        f, out = self.fn, []
        for h in f.headers:
            if not f.dominates(h, b):
                continue
            body = f.loops[h]
            fs = None
            for latch, x in f.back:
                if x != h:
                    continue
                one = []
                for c, want in self.dominating(latch):
                    g = f.inst[c] if isinstance(c, int) else None
                    if g is None or g.op != "icmp" or g.block not in body:
                        continue
                    for q in self.relation(g.ex, self.poly(g.ops[0], it, st),
                                           self.poly(g.ops[1], it, st), want):
                        ats = set(atoms(q))
                        if ("k", h) in ats and all(a == ("k", h) or self.stable(a, body)
                                                   for a in ats):
                            one.append(replace(q, ("k", h),
                                               add(atom("k", h), const(1), -1)))
                fs = one if fs is None else [q for q in fs if q in one]
            if fs:
                out.append((("k", h), fs))
        return out

    def facts(self, b, it, st):
        """Polynomials that are not negative at a block."""
        out = []

        def cond(v, want):
            if not isinstance(v, int):
                return
            g = self.fn.inst[v]
            if g.op == "icmp":
                rel(g.ex, self.poly(g.ops[0], it, st), self.poly(g.ops[1], it, st), want)
            elif g.op == "xor" and g.ops[1] in ("i:-1", "i:1"):
                cond(g.ops[0], not want)
            elif (g.op == "and" and want) or (g.op == "or" and not want):
                cond(g.ops[0], want)
                cond(g.ops[1], want)
            elif g.op == "select":
                # a && b, a || b
                if want and g.ops[2] == "i:0":
                    cond(g.ops[0], True)
                    cond(g.ops[1], True)
                if not want and g.ops[1] in ("i:1", "i:-1"):
                    cond(g.ops[0], False)
                    cond(g.ops[2], False)
            elif g.op == "phi":
                # a && b as blocks
                vs = [(o, p) for o, p in zip(g.ops, g.ex)]
                live = [(o, p) for o, p in vs if not (
                    o == "i:0" and want or o in ("i:1", "i:-1") and not want)]
                if len(live) == 1:
                    cond(live[0][0], want)
                    for c in self.dominating(live[0][1]):
                        if c not in done:
                            done.add(c)
                            cond(*c)

        def rel(pred, a, b, want):
            out.extend(self.relation(pred, a, b, want))
            if (pred, want) in (("eq", False), ("ne", True)):
                ne.append(add(a, b, -1))

        done, ne = set(), []
        for c in self.dominating(b):
            if c not in done:
                done.add(c)
                cond(*c)
        for k, x in st.facts.items():
            if k[0] == "atom" and k[1].startswith("shape") and k[2][0] == "p" and \
                    k[2][1][0] == "new" and isinstance(x, tuple):
                # no array is made with a negative dimension
                out.append(self.absval(x[1], it, st, ("f", k)))
            if k[0] == "rng":
                a = self.absval(k[1], it, st, ("rng", k[1]))
                if x[0] is not None:
                    out.append(add(a, const(x[0]), -1))
                if x[1] is not None:
                    out.append(add(const(x[1]), a, -1))
            elif k[0] == "cond":
                a, b2 = k[2], k[3]
                rel(k[1], self.absval(a, it, st, ("f", a)), self.absval(b2, it, st, ("f", b2)),
                    bool(x))
        self.never = any(set(f) <= {()} and f.get((), 0) < 0 for f in out) or \
            any(not q for q in ne)
        out = [f for f in out if f and set(f) != {()}]
        self.ne = []
        for q in {key(q): q for q in ne if set(q) != {()}}.values():
            for r in (q, mul(q, const(-1))):
                if self.prove(r, out, []):
                    out.append(add(r, const(1), -1))
                    break
            else:
                self.ne.append(q)
        return out

    # -- proving ------------------------------------------------------------------
    @staticmethod
    def natural(a):
        return a[0] == "k" or (a[0] == "atom" and (a[1].startswith(("shape", "stride")) or
                                                   a[1] in ("numel", "ndims")))

    def nonneg(self, p, facts, depth=0, seen=frozenset()):
        """The polynomial is not negative, given that the facts are not."""
        neg = [m for m, c in p.items() if c < 0]
        bad = [m for m, c in p.items() if c > 0 and not all(self.natural(a) for a in m)]
        if not neg and not bad:
            return True
        self.steps += 1
        if depth > 8 or len(p) > 20 or self.steps > 1000:
            return False
        k = key(p)
        if k in seen:
            return False
        seen = seen | {k}
        vs = [a for a in sorted({a for m in p for a in m}, key=self.order)]
        a = choice_in(vs)
        if a is not None:
            x, y, t, e = [dict(z) for z in a[2:]]
            for want, b in ((True, t), (False, e)):
                new = self.relation(a[1], x, y, want)
                if not self.nonneg(deep(p, a, b), facts + new, depth + 1, seen) and not any(
                        self.nonneg(add(const(-1), f, -1), facts, depth + 3, seen) for f in new):
                    return False
            return True
        for a in vs:
            # p = co * a + rest
            co = {minus(m, (a,)): c for m, c in p.items() if a in m}
            if any(a in m for m in co):
                continue
            rest = {m: c for m, c in p.items() if a not in m}
            if all(c < 0 for c in co.values()) and self.simple(co, facts, depth, seen):
                for u in self.bound(a, facts, -1):
                    if self.nonneg(add(rest, mul(co, u)), facts, depth + 1, seen):
                        return True
            elif all(c > 0 for c in co.values()) and (
                    not self.natural(a) or neg or bad) and \
                    self.simple(co, facts, depth, seen):
                for u in self.bound(a, facts, 1):
                    if self.nonneg(add(rest, mul(co, u)), facts, depth + 1, seen):
                        return True
            if a[0] not in ("div", "rem"):
                continue
            x, y = dict(a[1]), dict(a[2])
            if not (self.nonneg(x, facts, depth + 3, seen) and
                    self.nonneg(add(y, const(1), -1), facts, depth + 3, seen)):
                continue
            if all(c > 0 for c in co.values()) and self.simple(co, facts, depth, seen) and \
                    (self.nonneg(rest, facts, depth + 1, seen) or a[0] == "div" and
                     self.nonneg(add(x, y, -1), facts, depth + 3, seen) and
                     self.nonneg(add(rest, co), facts, depth + 1, seen)):
                return True
            if a[0] == "rem":
                if all(c < 0 for c in co.values()) and self.simple(co, facts, depth, seen) and \
                        self.nonneg(add(rest, mul(co, add(y, const(1), -1))), facts, depth + 1,
                                    seen):
                    return True
                continue
            # y * (x / y) is at most x and at least x - y + 1
            q = quotient(co, y)
            if q is not None and self.simple(q, facts, depth, seen):
                if all(c < 0 for c in q.values()) and \
                        self.nonneg(add(rest, mul(q, x)), facts, depth + 1, seen):
                    return True
                if all(c > 0 for c in q.values()) and self.nonneg(
                        add(rest, mul(q, add(add(x, y, -1), const(1)))), facts, depth + 1, seen):
                    return True
        return False

    def prove(self, p, facts, turns=()):
        self.steps = 0
        if self.nonneg(p, facts):
            return True
        for n, (k, fs) in enumerate(turns):
            if any(k in m for m in p):
                more = [t for m, t in enumerate(turns) if m != n]
                z = [replace(f, k, {}) for f in facts]
                return self.prove(replace(p, k, {}), [f for f in z if f], more) and \
                    self.prove(p, facts + fs, more)
        return False

    @staticmethod
    def order(a):
        return ({"v": 0, "div": 1, "rem": 1, "k": 2, "val": 3}.get(a[0], 4), repr(a))

    def simple(self, co, facts, depth, seen):
        """A product of numbers that are not negative."""
        for m in co:
            for a in m:
                if not self.natural(a) and not self.nonneg({(a,): 1}, facts, depth + 3, seen):
                    return False
        return True

    @staticmethod
    def bound(a, facts, sign):
        """Polynomials that are at least (sign -1) or at most (sign 1) the atom."""
        for f in facts:
            if f.get((a,)) == sign and sum(a in m for m in f) == 1:
                r = dict(f)
                del r[(a,)]
                yield mul(r, const(-1)) if sign > 0 else r
        if a[0] in ("div", "rem"):
            x, y = dict(a[1]), dict(a[2])
            if set(y) == {()} and y[()] > 0 and a[0] == "rem" and sign < 0:
                yield const(y[()] - 1)

    # -- accesses -------------------------------------------------------------------
    def on_access(self, it, i, st, kind, ptr, ty):
        for p in rules.bases(ptr):
            if p[1][0] == "data":
                break
        else:
            for p in rules.bases(ptr):
                if p[1][0] in ("heap", "alloca"):
                    self.block(it, i, st, kind, p[1], ty)
                    break
            return
        if it.status(st) == "N" or it.nullness(p[1][1], st) is True:
            return
        self.memo = {}
        self.lost = st.facts.get(("lost",), ())
        if i.op == "load":
            self.loads.add(i.id)
        if i.op in ("load", "store"):
            v = i.ops[1] if i.op == "store" else i.ops[0]
            n = const(1)
        else:
            v = i.ops[0] if kind == "store" else i.ops[1]
            n = self.poly(i.ops[2], it, st) if len(i.ops) > 2 else const(1)
        h, off = self.address(v, it, st)
        nm = self.names.handle(it, p[1][1])
        if h is None:
            self.row(i, nm, "und", "address")
            return
        sizes = [self.absval(it.canon(("atom", x, h), st), it, st, None) for x in
                 ("numel", "shape0", "shape1", "shape2", "shape3", "shape4")]
        fs = self.facts(i.block, it, st)
        if self.never:
            return
        if set(off) - {()}:
            fs = self.relevant(fs, [off] + sizes, h)
        dk = (i.id, key(off), h, it.edom("type", h, st), it.edom("ndims", h, st),
              tuple(key(x) for x in sizes), frozenset(key(f) for f in fs),
              st.facts.get(("lost",)), frozenset(key(q) for q in self.ne))
        if dk not in self.done:
            self.done[dk] = self.decide(it, st, h, off, n, fs, i,
                                            self.turns(i.block, it, st))
        self.row(i, nm, *self.done[dk])

    def on_new(self, it, i, st, name, vals, nv):
        """Remember the size in bytes of memory that is requested."""
        if nv[0] != "heap" or len(i.ops) < 1:
            return
        self.memo = {}
        ps = [self.poly(o, it, st) for o in i.ops if not isinstance(o, str) or o.startswith("i:")]
        if name == "calloc" and len(ps) == 2:
            n = mul(ps[0], ps[1])
        elif name == "realloc" and ps:
            n = ps[-1]
        elif name in ("malloc", "_Znwm", "_Znam") and ps:
            n = ps[0]
        else:
            return
        st.facts[("size", nv)] = key(n)

    def block(self, it, i, st, kind, base, ty):
        """An access to a local array or to memory requested by the function."""
        f = self.fn
        if it.status(st) == "N" or i.op not in ("load", "store"):
            return
        a = f.inst[base[1]]
        w = WIDTH.get(ty)
        b = i.ops[1] if i.op == "store" else i.ops[0]
        if w is None or not isinstance(b, int) or a.id == b:
            return
        nm = "local '%s'" % (a.name or f.var_of(a.id) or "array")
        self.memo = {}
        self.lost = st.facts.get(("lost",), ())
        h, off = self.address(b, it, st)
        if h is None:
            self.row(i, nm, "und", "address")
            return
        if h[0] == "alloca":
            n = const(a.ex[1]) if isinstance(a.ex, list) and a.ops == ["i:1"] else None
            if n is None or set(off) <= {()} and 0 <= off.get((), 0) < n[()]:
                return
        else:
            n = st.facts.get(("size", h))
            n = None if n is None else dict(n)
            if n is None or not (a.block == i.block or f.dominates(a.block, i.block)):
                self.row(i, nm, "und", "size")
                return
        if any(c % w for c in list(n.values()) + list(off.values())):
            self.row(i, nm, "und", "element offset")
            return
        n = {m: c // w for m, c in n.items()}
        off = {m: c // w for m, c in off.items()}
        fs = self.facts(i.block, it, st)
        if self.never:
            return
        fs = (self.relevant(fs, [off, n], None) if set(off) - {()} else fs) + [n]
        dk = (i.id, key(off), h, key(n), frozenset(key(x) for x in fs), self.lost,
              frozenset(key(q) for q in self.ne))
        if dk not in self.done:
            turns = self.turns(i.block, it, st)
            r = "ok", ""
            for p, lims, why, v in (
                    (add(add(n, off, -1), const(1), -1), [n], "%s < %s" % (show(off), show(n)), "high"),
                    (off, None, "%s >= 0" % show(off), "low")):
                if self.prove(p, fs, turns):
                    continue
                x = self.witness(off, lims, fs, turns, i)
                if x is not None:
                    r = v, "%s [%s]" % (why, x)
                    break
                r = "und", why
            self.done[dk] = r
        self.row(i, nm, *self.done[dk])

    @staticmethod
    def relevant(fs, ps, h):
        """Facts that share an atom with the offset or the array, directly or not."""
        have = {a for p in ps for x in (p, {(a,): 1 for a in atoms(p)}) for m in x for a in m}
        fs = list({key(f): f for f in fs}.values())
        ats = [(f, {a for m in f for a in m} | set(atoms(f))) for f in fs]
        out = []
        while True:
            n = [x for x in ats if x[1] & have or any(a[0] == "atom" and a[2] == h for a in x[1])]
            if not n:
                return out
            ats = [x for x in ats if x not in n]
            for f, s in n:
                out.append(f)
                have |= s

    def row(self, i, nm, verdict, why):
        self.rows.setdefault((i.id, nm), set()).add((verdict, why))

    def decide(self, it, st, h, off, n, facts, i, turns):
        dom = it.edom("type", h, st)
        sz = {SIZE[t] for t in dom or () if t}
        if len(sz) != 1:
            return "und", "size"
        sz = sz.pop()
        idx, rest = {}, {}
        for m, c in off.items():
            s = [a for a in m if a[0] == "atom" and a[1].startswith("stride") and a[2] == h]
            if len(s) == 1:
                d = int(s[0][1].lstrip("strideB"))
                byte = s[0][1].startswith("strideB")
                mm = tuple(a for a in m if a != s[0])
                if byte:
                    cc = c
                else:
                    if c % sz:
                        return "und", "element"
                    cc = c // sz
                idx.setdefault(d, {})
                idx[d] = add(idx[d], {mm: cc})
            else:
                rest[m] = c
        out = []
        nd = self.absval(it.canon(("atom", "ndims", h), st), it, st, None)
        nd = nd.get((), 0) if nd and set(nd) == {()} else None
        for d, p in idx.items():
            sh = it.canon(("atom", "shape%d" % d, h), st)
            lim = self.absval(sh, it, st, None)
            out.append((p, lim, "dimension %d" % d))
        c = rest.pop((), 0)
        if any(x % sz for x in rest.values()):
            return "und", "element offset"
        lo = {m: x // sz for m, x in rest.items()}
        ce = c // sz
        if idx and not rest and 0 <= c < sz:
            pass
        else:
            p = add(lo, const(ce))
            if n != const(1):
                pass
            if idx:
                d = (nd or max(idx) + 2) - 1
                sh = it.canon(("atom", "shape%d" % d, h), st)
                out.append((p, self.absval(sh, it, st, None), "dimension %d" % d))
            else:
                # A dimension that nothing is known of is at least 1.
                lims = [] if nd else [self.absval(it.canon(("atom", "numel", h), st), it, st,
                                                  None)]
                used = {int(a[1][5:]) for m in list(lo) + [m for f in facts for m in f] for a in m
                        if a[0] == "atom" and a[1].startswith("shape") and a[2] == h}
                for d in range(5):
                    sh = ("atom", "shape%d" % d, h)
                    if it.canon(sh, st) != sh or ("rng", sh) in st.facts:
                        used.add(d)
                q = const(1)
                for d in range(nd or max(used, default=-1) + 1):
                    sh = it.canon(("atom", "shape%d" % d, h), st)
                    q = mul(q, self.absval(sh, it, st, None))
                    if not nd or d == nd - 1:
                        lims.append(q)
                out.append((p, lims, "the number of elements"))
        und = None
        for p, lim, what in out:
            lims = lim if isinstance(lim, list) else [lim]
            if not any(self.prove(add(add(q, p, -1), const(1), -1), facts, turns) for q in lims):
                w = self.witness(p, lims, facts, turns, i)
                why = "%s: %s < %s" % (what, show(p), show(lims[-1] if nd else lims[0]))
                if w is not None:
                    return "high", "%s [%s]" % (why, w)
                und = und or why
            if not self.prove(p, facts, turns):
                w = self.witness(p, None, facts, turns, i)
                why = "%s: %s >= 0" % (what, show(p))
                if w is not None:
                    return "low", "%s [%s]" % (why, w)
                und = und or why
        if und:
            return "und", und
        return "ok", ""

    def size(self, a):
        """A counter, a number passed by the caller or kept in its plan, a size of its array."""
        if a[0] == "k":
            return True
        if self.wild(a):
            return True
        if a[0] == "val":
            return a[1][0] == "arg" or a[1][0] == "field" and a[1][1][0] == "arg"
        return a[0] == "atom" and a[2][0] == "p" and a[2][1][0] == "arg" and \
            (a[1].startswith("shape") or a[1] in ("numel", "ndims"))

    def wild(self, a):
        """An integer made from a coordinate: nothing but conditions on it limits its value."""
        i = self.fn.inst.get(a[1]) if a[0] == "v" and isinstance(a[1], int) else None
        while i is not None and i.op in ("sext", "trunc", "freeze"):
            i = self.fn.inst.get(i.ops[0])
        if i is None or i.op != "fptosi":
            return False
        if i.id not in self.wilds:
            src = set()
            self.wilds[i.id] = self.plain(i.ops[0], src, set()) and bool(src)
            self.sources[a[1]] = src
        return self.wilds[i.id]

    def filtered(self, used, facts, free, i):
        """Coordinates may have been limited before they became this integer."""
        if any(self.wild(a) and a not in free for f in facts for a in atoms(f)):
            return True
        f = self.fn
        for a in used:
            if not self.wild(a):
                continue
            home = f.inst[a[1]].block
            around = [f.loops[h] for h in f.headers if home in f.loops[h]]
            if not around:
                # made from arguments: any comparison of one of them may be the limit
                src = self.sources[a[1]]
                for g in f.inst.values():
                    if g.op == "fcmp":
                        mine = set()
                        for o in g.ops:
                            self.plain(o, mine, set())
                        if mine & src:
                            return True
                continue
            body = min(around, key=len)
            for c, _ in self.dominating(i.block):
                if isinstance(c, int) and f.inst[c].block in body and self.floating(c):
                    return True
        return False

    def floating(self, c):
        """The condition may depend on a comparison of floating point numbers."""
        work, seen = [c], set()
        while work:
            v = work.pop()
            if not isinstance(v, int) or v in seen:
                continue
            seen.add(v)
            g = self.fn.inst[v]
            if g.op in ("fcmp", "phi", "call") and g.ty == "i1" or g.op == "fcmp":
                return True
            if g.op in ("and", "or", "xor", "select", "trunc", "zext", "freeze") or \
                    g.op == "icmp" and g.ex in ("eq", "ne"):
                work.extend(g.ops)
        return False

    def plain(self, o, src, seen):
        """A number computed from array elements or arguments without choices or limits."""
        if isinstance(o, str):
            if re.match(r"a\d", o):
                src.add(o)
            return True
        if o in seen:
            return True
        seen.add(o)
        i = self.fn.inst[o]
        if i.op == "load":
            g = self.fn.inst.get(i.ops[0]) if isinstance(i.ops[0], int) else None
            if g is not None and g.op == "alloca":
                return all(self.plain(x, src, seen) for x in self.kept(g.id))
            src.add(o)
            return i.id in self.loads
        if i.op in ("fmul", "fadd", "fsub", "fdiv", "fneg", "fpext", "fptrunc"):
            return all(self.plain(x, src, seen) for x in i.ops)
        if i.op in ("sitofp", "uitofp"):
            return True
        if i.op == "call" and any(x in str(i.ex) for x in ("floor", "ceil", "round", "rint",
                                                           "fmuladd")):
            return all(self.plain(x, src, seen) for x in i.ops)
        return False

    def form(self, o, depth=0):
        """How a number is computed, the same for two copies of the computation."""
        if not isinstance(o, int) or depth > 12:
            return o
        i = self.fn.inst[o]
        if i.op in ("phi", "alloca") or i.op == "call" and not str(i.ex).startswith("llvm."):
            return o
        return (i.op, str(i.ex), tuple(self.form(x, depth + 1) for x in i.ops))

    def kept(self, a):
        """What is stored in a local variable."""
        return [x.ops[0] for b in self.fn.blocks for x in b if x.op == "store" and x.ops[1] == a]

    def loose(self, a, depth=0):
        """A value that comes from the contents of arrays or from floating point numbers."""
        i = self.fn.inst.get(a[1]) if a[0] == "v" and isinstance(a[1], int) else None
        if i is None or depth > 6:
            return False
        if i.op in ("fptosi", "fptoui"):
            return True
        if i.op == "load":
            return i.id in self.loads
        if i.op in ("sext", "zext", "trunc", "add", "sub", "mul", "select", "phi"):
            return all(self.loose(("v", o), depth + 1) for o in i.ops if isinstance(o, int) and
                       o != i.id)
        return False

    def witness(self, p, lims, facts, turns, i):
        """Sizes that the conditions on the way allow and for which the index is outside."""
        used = set(atoms(p))
        for q in lims or []:
            used |= set(atoms(q))
        free = set(used)
        more = True
        while more:
            more = False
            for f in facts:
                fa = set(atoms(f))
                if any(a[0] == "k" and a in free for a in fa) and not fa <= free:
                    free |= fa
                    more = True
        if not all(self.size(a) for a in free):
            return None
        if any(self.wild(a) for a in used) and self.filtered(used, facts, free, i):
            return None
        rest = [f for f in facts if not all(self.size(a) for a in atoms(f))]
        if any(a in free for f in rest for a in atoms(f)) and \
                not all(self.size(a) or self.loose(a) for f in rest for a in atoms(f)):
            return None
        facts = [f for f in facts if f not in rest]
        for f in facts:
            used |= set(atoms(f))
        for k, fs in turns:
            if k in used:
                used |= {a for f in fs for a in atoms(f)}
        ne = []
        for q in self.ne:
            qa = set(atoms(q))
            if qa & used:
                if not all(self.size(a) or self.loose(a) for a in qa):
                    return None
                if all(self.size(a) for a in qa):
                    ne.append(q)
                    used |= qa
        if self.lost and any(a in self.lost or a[0] == "val" and a[1] in self.lost for a in used):
            return None
        ats = sorted(used, key=lambda a: (a[0] == "k", a[0] == "v", repr(a)))
        if len(ats) > 14:
            return None
        pos = {a: n for n, a in enumerate(ats)}

        def need(q):
            out = -1
            for a in atoms(q):
                out = max(out, pos[a])
            return out
        due = {}
        for f in facts:
            due.setdefault(need(f), []).append(f)
        val = {}
        self.tries = 0

        def ev(q):
            t = 0
            for m, c in q.items():
                for a in m:
                    if a[0] in ("div", "rem"):
                        x, y = ev(dict(a[1])), ev(dict(a[2]))
                        if y == 0:
                            raise ZeroDivisionError
                        r = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                        c *= r if a[0] == "div" else x - y * r
                    elif a[0] == "sel":
                        x, y = ev(dict(a[2])), ev(dict(a[3]))
                        c *= ev(dict(a[4] if absint.icmp(a[1], x, y) else a[5]))
                    else:
                        c *= val[a]
                t += c
            return t

        def go(n):
            self.tries += 1
            if self.tries > 20000:
                return False
            try:
                if n > 0 and any(ev(f) < 0 for f in due.get(n - 1, ())):
                    return False
                if n == len(ats):
                    for k, fs in turns:
                        if val.get(k) and any(ev(f) < 0 for f in fs):
                            return False
                    if any(ev(q) == 0 for q in ne):
                        return False
                    x = ev(p)
                    if lims is None:
                        return x < 0
                    return x >= max(ev(q) for q in lims)
            except ZeroDivisionError:
                return False
            a = ats[n]
            # sizes kept in a plan were checked when it was made: even, divisible, positive
            field = a[0] == "val" and a[1][0] == "field"
            one = [val[b] for b in ats[:n] if field and b[0] == "val" and b[1][0] == "field"]
            # and how they depend on each other is not known
            for v in ((0, 1, 2, 3) if a[0] == "k" else (2, 1, 3, 4) if a[0] == "atom" else
                      one[:1] or (4, 2, 8) if field else (1, 2, 3, 4, 0, -1, -3, -6, 9)):
                val[a] = v
                if go(n + 1):
                    return True
            return False
        if any(ev(f) < 0 for f in due.get(-1, ())):
            return None
        if not go(0):
            return None
        return ", ".join("%s=%d" % (show({(a,): 1}), val[a]) for a in ats if a[0] != "k")


def tested(fn):
    """Loads and calls whose values conditions depend on."""
    out, seen, work = set(), set(), []
    for blk in fn.blocks:
        t = blk[-1]
        if t.op == "br" and t.ops:
            work.append(t.ops[0])
    while work:
        v = work.pop()
        if not isinstance(v, int) or v in seen:
            continue
        seen.add(v)
        i = fn.inst[v]
        if i.op in ("load", "call"):
            if i.ty in ("i32", "i64"):
                out.add(v)
        elif i.op in ("icmp", "add", "sub", "mul", "shl", "sext", "zext", "trunc", "select", "and",
                      "or", "xor", "freeze", "phi", "sdiv", "srem", "udiv", "urem"):
            work.extend(i.ops)
    return frozenset(out)


def short_loops(fn):
    """Headers of innermost loops with a small constant number of turns."""
    out = set()
    for h in fn.headers:
        body = fn.loops[h]
        if any(x != h and x in body for x in fn.headers):
            continue
        for i in fn.blocks[h]:
            if i.op != "phi":
                break
            if i.ty not in ("i32", "i64") or len(i.ops) != 2:
                continue
            for (o, p), (o2, p2) in (list(zip(i.ops, i.ex)), list(zip(i.ops, i.ex))[::-1]):
                g = fn.inst.get(o2) if isinstance(o2, int) else None
                if (p, h) in fn.back or (p2, h) not in fn.back or g is None or g.op != "add" or \
                        num(o) is None or g.ops[0] != i.id or num(g.ops[1]) is None:
                    continue
                for b in body:
                    t = fn.blocks[b][-1]
                    c = fn.inst.get(t.ops[0]) if t.op == "br" and t.ops and \
                        isinstance(t.ops[0], int) else None
                    if c is None or c.op != "icmp" or c.ops[0] not in (i.id, g.id) or \
                            num(c.ops[1]) is None or all(s in body for s in fn.succ[b]):
                        continue
                    if abs(num(c.ops[1]) - num(o)) <= 6 * abs(num(g.ops[1])):
                        out.add(h)
    return out


def num(o):
    return int(o[2:]) if isinstance(o, str) and o.startswith("i:") else None


def replace(p, a, b):
    """The polynomial with b in the place of an atom."""
    out = {}
    for m, c in p.items():
        t = {tuple(x for x in m if x != a): c}
        for x in m:
            if x == a:
                t = mul(t, b)
        out = add(out, t)
    return out


def choice_in(ats):
    """A choice among the atoms, or inside them, that does not depend on another choice."""
    for a in ats:
        if a[0] in ("sel", "div", "rem"):
            r = choice_in([b for x in a[1:] if isinstance(x, tuple)
                           for m, _ in x for b in m])
            if r is not None or a[0] == "sel":
                return r or a
    return None


def deep(p, a, b):
    """p with b for the atom a, also inside other atoms."""
    out = {}
    for m, c in p.items():
        t = {(): c}
        for x in m:
            if x == a:
                t = mul(t, b)
            elif x[0] in ("sel", "div", "rem"):
                t = mul(t, simpler(x[:1] + tuple(key(deep(dict(z), a, b)) if isinstance(z, tuple)
                                                 else z for z in x[1:])))
            else:
                t = mul(t, {(x,): 1})
        out = add(out, t)
    return out


def simpler(x):
    if x[0] == "sel":
        if x[4] == x[5]:
            return dict(x[4])
        d = add(dict(x[2]), dict(x[3]), -1)
        if set(d) <= {()}:
            return dict(x[4] if absint.icmp(x[1], d.get((), 0), 0) else x[5])
    elif x[2] == key(const(1)):
        return dict(x[1]) if x[0] == "div" else {}
    return {(x,): 1}


def quotient(p, y):
    """p / y for a divisor of one term that divides every term."""
    if len(y) != 1:
        return None
    (ym, yc), out = next(iter(y.items())), {}
    for m, c in p.items():
        m = list(m)
        for a in ym:
            if a not in m:
                return None
            m.remove(a)
        if c % yc:
            return None
        out[tuple(m)] = c // yc
    return out


def atoms(p):
    for m in p:
        for a in m:
            if a[0] in ("div", "rem"):
                for k in a[1:]:
                    yield from atoms(dict(k))
            elif a[0] == "sel":
                for k in a[2:]:
                    yield from atoms(dict(k))
            else:
                yield a


def show(p):
    return " + ".join("%s%s" % ("" if c == 1 and m else c, "*".join(
        str(a[1]) + str(a[2:]) if a[0] == "atom" else "%s%s" % (a[0], a[1:]) for a in m))
        for m, c in p.items()) or "0"


def sub(a, b):
    b = list(b)
    for x in a:
        if x not in b:
            return False
        b.remove(x)
    return True


def minus(a, b):
    a = list(a)
    for x in b:
        a.remove(x)
    return tuple(a)


def one(name):
    """(function, [(where, array, verdict, reason)])."""
    fn = analyse.PROG.funcs[name]
    h = Bounds(analyse.PROG, fn)
    it = absint.Interp(analyse.PROG, fn, entry_status="Z", hooks=h)
    it.shapes = True
    it.short = short_loops(fn)
    it.keep = tested(fn)
    it.run()
    out = []
    for (iid, nm), vs in sorted(h.rows.items(), key=lambda x: x[0][0]):
        at = [c for c in fn.chain(fn.inst[iid].loc) if rules.SRC in c[0]][:1] or [("?", 0, "?")]
        bad = [v for v in vs if v[0] in ("high", "low")] or [v for v in vs if v[0] != "ok"]
        out.append((at[0], nm) + (min(bad) if bad else ("ok", "")))
    return name, out


SELF = {"pair", "transposed", "next", "before", "strides", "cell", "made", "heap", "local"}
GOOD = {"pair", "made", "cell", "heap", "local"}


def run(tier):
    prog = analyse.program()
    analyse.PROG = prog
    res = Result("every index made of counters, sizes, arguments and coordinates is inside the "
                 "array on every path that reaches the access")
    res.assumptions = [
        "array-handle accessors return the attribute they are named after (property M01)",
        "indices do not overflow 64 bits; a dimension that nothing is known of is at least 1",
        "distinct array arguments of one call are distinct handles or agree in their attributes",
        "an access whose index is not of the decided form is counted as undecided, not reported"]
    names = [n for n, f in sorted(prog.funcs.items()) if analyse.analysed(f)]
    und, acc, bad, proved = {}, 0, set(), set()
    for name, rows in analyse.pmap(one, names):
        fn = prog.funcs[name]
        st = re.match(r"sdp_st_(bound_(bad|good)_)?(\w+)", name)
        for at, nm, v, why in rows:
            if st:
                if st.group(2) and v in ("high", "low"):
                    bad.add((st.group(2), st.group(3)))
                elif st.group(2) == "good":
                    (proved if v == "ok" else bad).add(("good", st.group(3)))
                continue
            acc += 1
            loc = "%s:%s" % (rules.short(at[0]), at[1])
            if v == "und":
                und[why.split(":")[0]] = und.get(why.split(":")[0], 0) + 1
                continue
            k = "%s:%s:%s" % (fn.dname, nm, loc)
            res.inst(k.replace(" ", "_"), loc)
            if v != "ok":
                pos = {a["name"]: "#%d" % n for n, a in enumerate(fn.args)}
                res.find(("%s:%s:%s:%s" % (fn.dname, pos.get(nm, nm), at[2], v)).replace(" ", "_"),
                         "%s: the index of %s can be %s; %s" % (
                             fn.dname, nm, "past the end" if v == "high" else "negative", why), loc)
    want = {("bad", x) for x in SELF}
    if bad != want or {x for _, x in proved} != GOOD:
        raise Broken("self-test: %s not reported, %s reported or undecided" % (
            sorted(want - bad), sorted(bad - want) + sorted(GOOD - {x for _, x in proved})))
    res.floor("accesses decided", len(res.instances), FLOOR)
    res.floor("functions", len(names), 120)
    res.info.update({"accesses": acc, "undecided": und, "functions": len(names),
                     "self_test": sorted(SELF)})
    return res


FLOOR = 350

if __name__ == "__main__":
    from collections import Counter
    analyse.PROG = analyse.program()
    tot = Counter()
    for n, rows in analyse.pmap(one, [
            n for n, f in analyse.PROG.funcs.items() if analyse.analysed(f) and (
                f.dname in sys.argv[1:] if len(sys.argv) > 1 else not n.startswith("sdp_st_"))]):
        for at, nm, v, why in rows:
            tot[v] += 1
            if v != "ok":
                print(n, nm, "%s:%s" % (rules.short(at[0]), at[1]), v, why)
    print(tot)
