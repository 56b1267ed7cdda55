"""Path-partitioned abstract interpretation of the exported program.

Every public function is interpreted over a finite abstract domain: the error
status (zero / non-zero), the element type, location, rank, writeability and
contiguity of each array handle, nullness, small integer constants, ownership
of resources, and equalities between those. States that differ are kept apart
(property simulation), so a check and the code that it guards stay correlated.
Nothing is executed; loops are covered by a fixpoint with widening.
"""
import json
import sys
from collections import defaultdict

sys.setrecursionlimit(20000)

TYPES = {0: "VOID", 1: "CHAR", 2: "INT", 4: "FLOAT", 8: "DOUBLE",
         36: "COMPLEX_FLOAT", 40: "COMPLEX_DOUBLE"}
DOMAIN = {
    "type": frozenset(TYPES),
    "location": frozenset((0, 1)),
    "ro": frozenset((0, 1)),
    "contig": frozenset((0, 1)),
    "complex4": frozenset((0, 1)),
}
STATE_CAP = 1500
JOIN_CAP = 12

NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle",
       "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge",
        "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}


def icmp(pred, a, b, bits=64):
    if pred[0] == "u":
        m = (1 << bits) - 1
        a &= m
        b &= m
        pred = "s" + pred[1:]
    return {"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b,
            "sgt": a > b, "sge": a >= b}[pred]


class Inst(object):
    __slots__ = ("id", "op", "ty", "ops", "ex", "loc", "name", "block", "idx")

    def __init__(self, row, block, idx):
        self.id, self.op, self.ty, self.ops, self.ex, self.loc = row[:6]
        self.name = row[6] if len(row) > 6 else None
        self.block = block
        self.idx = idx


class Func(object):
    def __init__(self, prog, d):
        self.prog = prog
        self.name = d["name"]
        self.dname = d["dname"] or d["name"]
        self.public = d["public"]
        self.linkage = d["linkage"]
        self.file = d["file"]
        self.line = d["line"]
        self.args = d["args"]
        self.ret = d["ret"]
        self.rdbg = d.get("rdbg", "")
        self.blocks = []
        self.inst = {}
        for bi, b in enumerate(d["blocks"]):
            blk = [Inst(r, bi, k) for k, r in enumerate(b)]
            self.blocks.append(blk)
            for i in blk:
                self.inst[i.id] = i
        self.status_arg = None
        for k, a in enumerate(self.args):
            if a["dbg"].endswith(":sdp_Error") and a["dbg"].startswith("*"):
                self.status_arg = k
        self._cfg()

    def _cfg(self):
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]
        self.pred = [[] for _ in range(n)]
        for b, blk in enumerate(self.blocks):
            t = blk[-1]
            if t.op == "br":
                s = list(t.ex)
            elif t.op == "switch":
                s = [t.ex[0]] + [c[1] for c in t.ex[1:]]
            else:
                s = []
            for x in dict.fromkeys(s):
                self.succ[b].append(x)
                self.pred[x].append(b)
        # Reverse post-order, back edges, natural loops.
        order, seen, stack = [], set(), [(0, iter(self.succ[0]))] if n else []
        seen.add(0)
        onstack = {0}
        self.back = set()
        while stack:
            b, it = stack[-1]
            for s in it:
                if s in onstack:
                    self.back.add((b, s))
                if s not in seen:
                    seen.add(s)
                    onstack.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                onstack.discard(b)
                stack.pop()
        self.rpo = order[::-1]
        self.rpo_ix = {b: i for i, b in enumerate(self.rpo)}
        self.headers = {h for _, h in self.back}
        self.loops = {}
        for t, h in self.back:
            body = self.loops.setdefault(h, {h})
            work = [t]
            while work:
                x = work.pop()
                if x not in body:
                    body.add(x)
                    work.extend(self.pred[x])

    def loop_order(self):
        """Like rpo_ix, but what follows a loop comes after all blocks of the loop."""
        if hasattr(self, "_lo"):
            return self._lo

        def succ(b):
            return iter(sorted(self.succ[b], key=lambda s: sum(
                b in x and s in x for x in self.loops.values())))
        order, seen, stack = [], {0}, [(0, succ(0))] if self.blocks else []
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, succ(s)))
                    break
            else:
                order.append(b)
                stack.pop()
        self._lo = {b: i for i, b in enumerate(order[::-1])}
        return self._lo

    def dominators(self):
        if hasattr(self, "_dom"):
            return self._dom
        idom = {self.rpo[0]: self.rpo[0]}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while self.rpo_ix[x] > self.rpo_ix[y]:
                                    x = idom[x]
                                while self.rpo_ix[y] > self.rpo_ix[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self._dom = idom
        return idom

    def dominates(self, a, b):
        idom = self.dominators()
        while True:
            if a == b:
                return True
            if b not in idom or idom[b] == b:
                return False
            b = idom[b]

    def var_of(self, iid):
        """Source variable that holds an instruction's result, if known."""
        i = self.inst[iid]
        return i.name or None

    def access_stride(self, i):
        """Byte stride of the innermost variable index of an access, or None."""
        v = i.ops[1] if i.op == "store" else i.ops[0]
        n = 0
        while isinstance(v, int) and n < 8:
            g = self.inst[v]
            if g.op != "getelementptr" or not isinstance(g.ex, list):
                return None
            if g.ex[1]:
                return min(abs(t[1]) for t in g.ex[1])
            v = g.ops[0]
            n += 1
        return None

    def where(self, loc):
        """Innermost source position of a location index: (file, line, function)."""
        if loc is None or loc < 0:
            return (self.file, self.line, self.dname)
        r = self.prog.locs[loc]
        return (r[0], r[1], r[2])

    def chain(self, loc):
        out = []
        while loc is not None and loc >= 0:
            r = self.prog.locs[loc]
            out.append((r[0], r[1], r[2]))
            loc = r[3]
        return out

    def argname(self, k):
        return self.args[k]["name"] or "arg%d" % k


class Program(object):
    def __init__(self, path, invariants=True):
        with open(path) as f:
            d = json.load(f)
        self.locs = d["locs"]
        self.structs = d["structs"]
        self.globals = {g["name"]: g for g in d["globals"]}
        self.decls = set(d["decls"])
        self.funcs = {}
        for fd in d["functions"]:
            f = Func(self, fd)
            self.funcs[f.name] = f
        self.summaries = {}
        self.field_inv = {}
        if invariants:
            self.field_inv = field_invariants(self)

    def mem_offsets(self):
        s = self.structs.get("sdp_Mem")
        if not s:
            raise RuntimeError("struct sdp_Mem not found in the debug information")
        return {m[0]: m[1] for m in s["members"]}


# ---------------------------------------------------------------------------
# Callee models: array-handle accessors. Each is checked against its own body
# by the accessor check (see checks), so the table cannot drift from the code.
ACCESSOR = {
    "sdp_mem_type": ("type",),
    "sdp_mem_location": ("location",),
    "sdp_mem_num_dims": ("ndims",),
    "sdp_mem_num_elements": ("numel",),
    "sdp_mem_is_c_contiguous": ("contig",),
    "sdp_mem_is_read_only": ("ro",),
    "sdp_mem_is_complex4": ("complex4",),
}
PRED = {
    "sdp_mem_is_complex": lambda t: int((t & 32) == 32),
    "sdp_mem_is_double": lambda t: int((t & 8) == 8),
    "sdp_mem_is_floating_point": lambda t: int(t in (4, 8)),
    "sdp_mem_type_size": None,
}
DATA = ("sdp_mem_data", "sdp_mem_data_const")
# Functions that create a handle: name -> index of (type, location) arguments.
CREATE = {
    "sdp_mem_create": (0, 1),
    "sdp_mem_create_wrapper": (1, 2),
    "sdp_mem_create_wrapper_for_slice": None,
    "sdp_mem_create_alias": None,
    "sdp_mem_create_copy": None,
    "sdp_mem_convert_precision": None,
    "sdp_mem_ref_inc": None,
}
HEAP_NEW = ("malloc", "calloc", "realloc", "_Znwm", "_Znam", "strdup")
HEAP_DEL = ("free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm")
HARMLESS_PREFIX = ("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.stack",
                   "llvm.annotation", "llvm.experimental.noalias")


def is_timer(n):
    return n.startswith("sdp_timer")


class State(object):
    __slots__ = ("cells", "facts", "env", "res", "flags")

    def __init__(self):
        self.cells = {}
        self.facts = {}
        self.env = {}
        self.res = {}
        self.flags = frozenset()

    def copy(self):
        s = State()
        s.cells = dict(self.cells)
        s.facts = dict(self.facts)
        s.env = dict(self.env)
        s.res = dict(self.res)
        s.flags = self.flags
        return s

    def key(self):
        return (frozenset(self.cells.items()), frozenset(self.facts.items()),
                frozenset(self.env.items()), frozenset(self.res.items()), self.flags)


class Incomplete(Exception):
    pass


def fold(sts):
    """Merge states that together say what one state says."""
    groups = {}
    for s in sts:
        groups.setdefault((frozenset(s.cells.items()), frozenset(s.env.items()),
                           frozenset(s.res.items()), s.flags), []).append(s)
    out = []
    for g in groups.values():
        done = []
        while g:
            s = g.pop()
            for n, r in enumerate(done):
                f = one_of_two(r.facts, s.facts)
                if f is not None:
                    del done[n]
                    m = s.copy()
                    m.facts = f
                    g.append(m)
                    break
            else:
                done.append(s)
        out += done
    return out


def one_of_two(x, y):
    """The facts that hold exactly when those of x or those of y do, if there are such."""
    d = [k for k in set(x) | set(y) if x.get(k) != y.get(k) and k != ("lost",)]
    lost = x.get(("lost",), frozenset()) | y.get(("lost",), frozenset())
    f = None
    if all(k not in x for k in d):
        f = dict(x)
    elif all(k not in y for k in d):
        f = dict(y)
    elif len(d) == 1:
        k, a, b = d[0], x.get(d[0]), y.get(d[0])
        f = dict(x)
        if k[0] in ("cond", "null") and {a, b} == {True, False}:
            del f[k]
        elif k[0] == "rng":
            if a[0] is not None and (b[0] is None or b[0] < a[0]):
                a, b = b, a
            if a[1] is not None and b[0] is not None and b[0] > a[1] + 1:
                return None
            r = (a[0], None if a[1] is None or b[1] is None else max(a[1], b[1]))
            if r == (None, None):
                del f[k]
            else:
                f[k] = r
        elif isinstance(a, frozenset) and isinstance(b, frozenset):
            f[k] = a | b
        else:
            return None
    if f is not None and lost:
        f[("lost",)] = lost
    return f


def base_atoms(v, out):
    """The attributes, arguments and fields that a condition or value is made of."""
    if isinstance(v, tuple) and v:
        if v[0] in ("atom", "arg", "field"):
            out.add(v)
        else:
            for x in v[1:]:
                base_atoms(x, out)


class Interp(object):
    """Interprets one function. Hooks (methods on_*) let rules observe it."""

    unroll = False  # follow integers around loops (for loops known to be short)
    shapes = False  # keep the dimensions that arrays are made with
    short = frozenset()  # headers of loops to follow turn by turn
    keep = frozenset()  # instructions whose values are kept when they are not live

    def __init__(self, prog, fn, entry_status="Z", hooks=None, overrides=None):
        self.prog = prog
        self.fn = fn
        self.hooks = hooks
        self.entry_status = entry_status
        self.overrides = overrides or {}
        self._prep()
        self.exits = []
        self.nstates = 0
        self.joined = 0
        self.choices = {}

    # -- static preparation -------------------------------------------------
    def _prep(self):
        fn = self.fn
        self.mat = set()  # materialised values
        for i in fn.inst.values():
            if i.op in ("phi", "load", "call", "invoke", "alloca", "atomicrmw", "cmpxchg"):
                self.mat.add(i.id)
        roots = {}

        def root_of(v):
            if not isinstance(v, int):
                return frozenset()
            if v in self.mat:
                return frozenset((v,))
            if v in roots:
                return roots[v]
            roots[v] = frozenset()
            i = fn.inst[v]
            r = frozenset().union(*[root_of(o) for o in self.operands(i)]) \
                if i.ops or i.op == "getelementptr" else frozenset()
            roots[v] = r
            return r
        n = len(fn.blocks)
        use = [set() for _ in range(n)]
        deff = [set() for _ in range(n)]
        phiuse = defaultdict(set)
        for b in range(n):
            for i in fn.blocks[b]:
                if i.op == "phi":
                    for o, p in zip(i.ops, i.ex):
                        phiuse[p] |= root_of(o)
                    deff[b].add(i.id)
                    continue
                for o in self.operands(i):
                    use[b] |= (root_of(o) - deff[b])
                if i.id in self.mat:
                    deff[b].add(i.id)
        live_in = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in reversed(fn.rpo):
                out = set(phiuse[b])
                for s in fn.succ[b]:
                    out |= live_in[s]
                new = use[b] | (out - deff[b])
                # a phi-edge use of a value defined in this block is fine
                if new != live_in[b]:
                    live_in[b] = new
                    changed = True
        self.live_in = live_in
        self.live_out = [set(phiuse[b]).union(*[live_in[s] for s in fn.succ[b]])
                         for b in range(n)]

    def operands(self, i):
        ops = list(i.ops)
        if i.op == "getelementptr" and isinstance(i.ex, list) and len(i.ex) == 3:
            ops = ops[:1] + [t[0] for t in i.ex[1]]
        if i.op == "call" and isinstance(i.ex, list):
            ops = ops + [i.ex[0]]
        return ops

    # -- value evaluation ------------------------------------------------------
    def val(self, v, st):
        if isinstance(v, int):
            if v in st.env:
                return st.env[v]
            i = self.fn.inst[v]
            if v in self.mat:
                if i.op == "alloca":
                    return ("p", ("alloca", v), 0)
                return ("top", v)
            return self.pure(i, st)
        c = v[0]
        if c == "i":
            return ("i", int(v[2:]))
        if c == "a" and v[1:].isdigit():
            k = int(v[1:])
            if self.fn.args[k]["type"] == "ptr":
                return ("p", ("arg", k), 0)
            return ("arg", k)
        if c == "n":
            return ("i", 0)
        if c == "g":
            n, _, o = v[2:].partition("+")
            return ("p", ("glob", n), int(o) if o else 0)
        if c == "z":
            return ("i", 0)
        if c == "u":
            return ("undef",)
        return ("top", v)

    def pure(self, i, st):
        op = i.op
        if op == "getelementptr":
            b = self.val(i.ops[0], st)
            return self.gep(i, b, st)
        if op in ("bitcast", "addrspacecast", "freeze"):
            return self.val(i.ops[0], st)
        if op in ("sext", "zext", "trunc"):
            a = self.val(i.ops[0], st)
            if a[0] == "i" and op == "zext" and a[1] < 0:
                o = i.ops[0]
                i1 = isinstance(o, int) and o in self.fn.inst and self.fn.inst[o].ty == "i1"
                return ("i", 1) if i1 else ("top", i.id)
            return a
        if op in ("ptrtoint", "inttoptr"):
            return self.val(i.ops[0], st)
        if op == "icmp":
            a, b = self.val(i.ops[0], st), self.val(i.ops[1], st)
            return self.cmpval(i.ex, a, b, st, i.id)
        if op == "select":
            c = self.val(i.ops[0], st)
            t = self.truth(c, st)
            if t is True:
                return self.val(i.ops[1], st)
            if t is False:
                return self.val(i.ops[2], st)
            a, b = self.val(i.ops[1], st), self.val(i.ops[2], st)
            if a == b:
                return a
            if i.ty != "i1" and i.ty != "ptr" and self.bool_stable(c) and \
                    c[0] in ("cmp", "not", "and", "or") and self.stable(a) and self.stable(b) \
                    and self.depth(a) + self.depth(b) < 7:
                return ("ite", c, a, b)
            if a[0] == "p" or b[0] == "p":
                al = a[1] if a[0] == "sel" else (a,)
                bl = b[1] if b[0] == "sel" else (b,)
                return ("sel", tuple(dict.fromkeys(al + bl)))
            return ("top", i.id)
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "ashr", "lshr",
                  "sdiv", "srem", "udiv", "urem"):
            a, b = self.val(i.ops[0], st), self.val(i.ops[1], st)
            return self.arith(op, a, b, i, st)
        return ("top", i.id)

    def gep(self, i, b, st):
        off = None
        if isinstance(i.ex, list) and len(i.ex) == 3:
            off = i.ex[0]
            for v, sc in i.ex[1]:
                x = self.val(v, st)
                if x[0] == "i":
                    off += x[1] * sc
                else:
                    off = None
                    break
        if b[0] == "sel":
            return ("sel", tuple(self.shift(x, off) for x in b[1]))
        return self.shift(b, off)

    @staticmethod
    def shift(b, off):
        if b[0] == "p":
            if off is None or b[2] is None:
                return ("p", b[1], None)
            return ("p", b[1], b[2] + off)
        if b[0] == "top":
            return ("p", b, off)
        if b[0] in ("field", "new", "heap", "nz"):
            return ("p", b, off)
        return b

    def arith(self, op, a, b, i, st):
        if a[0] == "i" and b[0] == "i":
            x, y = a[1], b[1]
            try:
                if op == "add":
                    return ("i", x + y)
                if op == "sub":
                    return ("i", x - y)
                if op == "mul":
                    return ("i", x * y)
                if op == "and":
                    return ("i", x & y)
                if op == "or":
                    return ("i", x | y)
                if op == "xor":
                    return ("i", x ^ y)
                if op == "shl":
                    return ("i", x << y)
                if op == "sdiv" and y:
                    return ("i", int(x / y))
                if op == "srem" and y:
                    return ("i", x - y * int(x / y))
            except (ValueError, OverflowError):
                pass
            return ("top", i.id)
        if i.ty == "i1":
            if op == "xor" and b == ("i", -1):
                return self.notval(a)
            if op == "xor" and b == ("i", 1):
                return self.notval(a)
            if op == "and":
                if a == ("i", 0) or b == ("i", 0):
                    return ("i", 0)
                ta, tb = self.truth(a, st), self.truth(b, st)
                if ta is False or tb is False:
                    return ("i", 0)
                if ta is True:
                    return b
                if tb is True:
                    return a
                return ("and", a, b)
            if op == "or":
                ta, tb = self.truth(a, st), self.truth(b, st)
                if ta is True or tb is True:
                    return ("i", 1)
                if ta is False:
                    return b
                if tb is False:
                    return a
                return ("or", a, b)
        if op == "and" and (a == ("i", 0) or b == ("i", 0)):
            return ("i", 0)
        if op == "mul" and (a == ("i", 0) or b == ("i", 0)):
            return ("i", 0)
        if self.stable(a) and self.stable(b) and self.depth(a) + self.depth(b) < 7:
            if op in ("add", "mul", "and", "or", "xor") and repr(b) < repr(a):
                a, b = b, a
            return ("op", op, a, b)
        return ("top", i.id)

    @staticmethod
    def notval(a):
        if a[0] == "i":
            return ("i", 0 if a[1] else 1)
        if a[0] == "not":
            return a[1]
        if a[0] == "cmp":
            return ("cmp", NEG[a[1]], a[2], a[3])
        return ("not", a)

    @staticmethod
    def depth(a):
        if a[0] in ("op", "ite"):
            return 1 + Interp.depth(a[2]) + Interp.depth(a[3])
        return 1

    @staticmethod
    def stable(a):
        """Value fixed for the whole call (not loop-variant)."""
        if a[0] in ("i", "arg", "atom"):
            return True
        if a[0] == "field":
            return Interp.stable_base(a[1])
        if a[0] == "op":
            return Interp.stable(a[2]) and Interp.stable(a[3])
        if a[0] == "ite":
            return True
        if a[0] == "pred":
            return True
        if a[0] == "p":
            return a[2] is not None and Interp.stable_base(a[1])
        return False

    @staticmethod
    def stable_base(b):
        if b[0] in ("arg", "glob"):
            return True
        if b[0] == "field":
            return Interp.stable_base(b[1])
        return False

    def canon(self, a, st):
        """Follow equalities between atoms."""
        n = 0
        while a[0] == "atom" and n < 20:
            x = st.facts.get(a)
            if isinstance(x, tuple) and x and x[0] == "alias":
                a = x[1]
                n += 1
                if a[0] == "i":
                    return a
            else:
                break
        if a[0] == "atom":
            x = st.facts.get(a)
            if isinstance(x, frozenset) and len(x) == 1:
                return ("i", next(iter(x)))
        return a

    def edom(self, attr, h, st):
        """Values an attribute of a handle may have; None if not known."""
        e = self.canon(("atom", attr, h), st)
        if e[0] == "i":
            return frozenset((e[1],))
        if e[0] == "atom":
            return self.domain(e, st)
        if attr in DOMAIN:
            return frozenset(v for v in DOMAIN[attr]
                             if self.cmp_truth("eq", e, ("i", v), st) is not False)
        return None

    def domain(self, a, st):
        x = st.facts.get(a)
        if isinstance(x, frozenset):
            return x
        h = a[2]
        if h[0] == "p" and h[1][0] == "field":
            v = self.prog.field_inv.get((self.ptr_struct(h[1][1]), h[1][2]))
            if v and a[1] in v:
                return v[a[1]]
        return DOMAIN.get(a[1])

    def fin_atoms(self, e, st, out):
        e = self.canon(e, st)
        if e[0] == "atom":
            if self.domain(e, st) is None:
                return False
            out.add(e)
            return True
        if e[0] == "i":
            return True
        if e[0] == "op":
            return self.fin_atoms(e[2], st, out) and self.fin_atoms(e[3], st, out)
        if e[0] == "pred":
            return self.fin_atoms(e[2], st, out)
        if e[0] == "ite":
            t = self.truth(e[1], st)
            if t is not None:
                return self.fin_atoms(e[2] if t else e[3], st, out)
            return self.fin_cond(e[1], st, out) and self.fin_atoms(e[2], st, out) and \
                self.fin_atoms(e[3], st, out)
        return False

    def fin_cond(self, c, st, out):
        """Collect the finite atoms of a condition; False if it has others."""
        if c[0] == "cmp":
            return self.fin_atoms(c[2], st, out) and self.fin_atoms(c[3], st, out)
        if c[0] == "not":
            return self.fin_cond(c[1], st, out)
        if c[0] in ("and", "or"):
            return self.fin_cond(c[1], st, out) and self.fin_cond(c[2], st, out)
        return c[0] == "i"

    def fin_truth(self, c, asg, st):
        if c[0] == "cmp":
            return icmp(c[1], self.fin_eval(c[2], asg, st), self.fin_eval(c[3], asg, st))
        if c[0] == "not":
            return not self.fin_truth(c[1], asg, st)
        if c[0] == "and":
            return self.fin_truth(c[1], asg, st) and self.fin_truth(c[2], asg, st)
        if c[0] == "or":
            return self.fin_truth(c[1], asg, st) or self.fin_truth(c[2], asg, st)
        return bool(c[1])

    def fin_eval(self, e, asg, st):
        e = self.canon(e, st)
        if e[0] == "i":
            return e[1]
        if e[0] == "atom":
            return asg[e]
        if e[0] == "pred":
            return PRED[e[1]](self.fin_eval(e[2], asg, st))
        if e[0] == "ite":
            t = self.truth(e[1], st)
            if t is None:
                t = self.fin_truth(e[1], asg, st)
            return self.fin_eval(e[2] if t else e[3], asg, st)
        x, y = self.fin_eval(e[2], asg, st), self.fin_eval(e[3], asg, st)
        return {"add": x + y, "sub": x - y, "mul": x * y, "and": x & y,
                "or": x | y, "xor": x ^ y}.get(e[1])

    def cmpval(self, pred, a, b, st, iid):
        # boolean unwrapping
        if b == ("i", 0) and a[0] in ("cmp", "not", "and", "or"):
            if pred == "ne":
                return a
            if pred == "eq":
                return self.notval(a)
        return ("cmp", pred, a, b)

    # -- truth and refinement -----------------------------------------------------
    def truth(self, c, st):
        if c[0] == "i":
            return bool(c[1] & 1) if c[1] in (0, 1, -1) else bool(c[1])
        if c[0] == "cmp":
            return self.cmp_truth(c[1], c[2], c[3], st)
        if c[0] == "not":
            t = self.truth(c[1], st)
            return None if t is None else not t
        if c[0] == "and":
            x, y = self.truth(c[1], st), self.truth(c[2], st)
            if x is False or y is False:
                return False
            if x and y:
                return True
            return None
        if c[0] == "or":
            x, y = self.truth(c[1], st), self.truth(c[2], st)
            if x or y:
                return True
            if x is False and y is False:
                return False
            return None
        if c[0] == "nz":
            return True
        return None

    def nullness(self, v, st):
        """True: null, False: not null, None: unknown."""
        if v == ("i", 0):
            return True
        if v[0] == "p":
            if v[2] not in (0, None):
                return False
            b = v[1]
            if b[0] in ("alloca", "glob"):
                return False
            if b[0] == "arg":
                return st.facts.get(("null", b))
            return st.facts.get(("null", b))
        if v[0] in ("new", "heap", "field", "data", "nz"):
            if v[0] == "nz":
                return False
            return st.facts.get(("null", v))
        if v[0] == "sel":
            ns = {self.nullness(x, st) for x in v[1]}
            return ns.pop() if len(ns) == 1 else None
        return None

    def cmp_truth(self, pred, a, b, st):
        a, b = self.canon(a, st), self.canon(b, st)
        if a[0] == "i" and b[0] == "i":
            return icmp(pred, a[1], b[1])
        if a[0] == "nz" and b == ("i", 0):
            return {"eq": False, "ne": True}.get(pred)
        if pred in ("eq", "ne"):
            for x, y in ((a, b), (b, a)):
                if y == ("i", 0) and x[0] in ("p", "new", "heap", "field", "data", "sel"):
                    n = self.nullness(x, st)
                    if n is not None:
                        return n if pred == "eq" else not n
            if a == b and a[0] != "top" and a[0] != "undef":
                return pred == "eq"
            if a[0] == "p" and b[0] == "p" and a[1] == b[1] and None not in (a[2], b[2]):
                return (a[2] == b[2]) == (pred == "eq")
        elif a == b and a[0] not in ("top", "undef"):
            return pred in ("sle", "sge", "ule", "uge")
        atoms = set()
        if self.fin_atoms(a, st, atoms) and self.fin_atoms(b, st, atoms):
            n = 1
            for x in atoms:
                n *= len(self.domain(x, st))
            if n <= 400:
                res = set()
                for asg in self.assignments(sorted(atoms, key=repr), st):
                    res.add(icmp(pred, self.fin_eval(a, asg, st), self.fin_eval(b, asg, st)))
                    if len(res) == 2:
                        return None
                if res:
                    return res.pop()
        if self.stable(a) and self.stable(b):
            if a[0] == "i" and b[0] != "i":
                a, b, pred = b, a, SWAP[pred]
            k = self.factkey(pred, a, b)
            v = st.facts.get(k[0])
            if v is not None:
                return v if k[1] else not v
            # trivial consequences for comparisons with constants
            rng = st.facts.get(("rng", a))
            if b[0] == "i" and rng:
                lo, hi = rng
                return self.range_truth(pred, lo, hi, b[1])
        return None

    @staticmethod
    def range_truth(pred, lo, hi, c):
        if pred == "slt":
            if hi is not None and hi < c:
                return True
            if lo is not None and lo >= c:
                return False
        elif pred == "sge":
            r = Interp.range_truth("slt", lo, hi, c)
            return None if r is None else not r
        elif pred == "sgt":
            if lo is not None and lo > c:
                return True
            if hi is not None and hi <= c:
                return False
        elif pred == "sle":
            r = Interp.range_truth("sgt", lo, hi, c)
            return None if r is None else not r
        elif pred in ("eq", "ne"):
            if lo is not None and lo == hi == c:
                return pred == "eq"
            if (lo is not None and lo > c) or (hi is not None and hi < c):
                return pred == "ne"
        return None

    def factkey(self, pred, a, b):
        if a[0] == "i" or (b[0] != "i" and repr(b) < repr(a)):
            a, b, pred = b, a, SWAP[pred]
        pos = True
        if pred in ("ne", "sge", "sgt", "uge", "ugt"):
            pred, pos = NEG[pred], False
        return ("cond", pred, a, b), pos

    def assignments(self, atoms, st):
        if not atoms:
            yield {}
            return
        a = atoms[0]
        for v in self.domain(a, st):
            for r in self.assignments(atoms[1:], st):
                d = dict(r)
                d[a] = v
                yield d

    def refine(self, st, c, want):
        """States of st in which condition c has truth value want."""
        if c[0] == "not":
            return self.refine(st, c[1], not want)
        t = self.truth(c, st)
        if t is not None:
            return [st] if t == want else []
        if c[0] == "and":
            if want:
                return [y for x in self.refine(st, c[1], True)
                        for y in self.refine(x, c[2], True)]
            out = self.refine(st.copy(), c[1], False)
            for x in self.refine(st.copy(), c[1], True):
                out += self.refine(x, c[2], False)
            return out
        if c[0] == "or":
            if not want:
                return [y for x in self.refine(st, c[1], False)
                        for y in self.refine(x, c[2], False)]
            out = self.refine(st.copy(), c[1], True)
            for x in self.refine(st.copy(), c[1], False):
                out += self.refine(x, c[2], True)
            return out
        if c[0] == "cmp":
            return self.refine_cmp(st, c[1] if want else NEG.get(c[1], c[1]), c[2], c[3])
        return [st]

    def refine_cmp(self, st, pred, a, b):
        a, b = self.canon(a, st), self.canon(b, st)
        if pred in ("eq", "ne"):
            for x, y in ((a, b), (b, a)):
                if y == ("i", 0) and x[0] in ("p", "new", "heap", "field", "data", "sel"):
                    base = x
                    if x[0] == "p":
                        base = x[1]
                    if x[0] == "sel":
                        return [st]
                    s = st.copy()
                    s.facts[("null", base)] = (pred == "eq")
                    if base[0] in ("new", "heap") and pred == "eq":
                        s.res.pop(base, None)
                    return [s]
            if pred == "eq" and a[0] == "atom" and b[0] == "atom":
                da, db = self.domain(a, st), self.domain(b, st)
                s = st.copy()
                if da is not None and db is not None:
                    d = da & db
                    if not d:
                        return []
                    s.facts[b] = d
                s.facts[a] = ("alias", b)
                return [s]
        atoms = set()
        if self.fin_atoms(a, st, atoms) and self.fin_atoms(b, st, atoms) and len(atoms) == 1:
            at = next(iter(atoms))
            d = frozenset(v for v in self.domain(at, st)
                          if icmp(pred, self.fin_eval(a, {at: v}, st),
                                  self.fin_eval(b, {at: v}, st)))
            if not d:
                return []
            s = st.copy()
            s.facts[at] = d
            return [s]
        if 2 <= len(atoms) <= 3 and self.fin_atoms(a, st, set()) and self.fin_atoms(b, st, set()):
            # Split on one attribute so that the relation is kept exactly.
            at = min(sorted(atoms, key=repr), key=lambda x: len(self.domain(x, st)))
            out = []
            for v in sorted(self.domain(at, st)):
                s = st.copy()
                s.facts[at] = frozenset((v,))
                t = self.cmp_truth(pred, a, b, s)
                if t is True:
                    out.append(s)
                elif t is None:
                    out += self.refine_cmp(s, pred, a, b)
            # States that only differ in the value split on are joined again.
            groups = {}
            for s in out:
                v = s.facts.pop(at)
                groups.setdefault(s.key(), [s, frozenset()])
                groups[s.key()][1] |= v
            res = []
            for s, d in groups.values():
                if d != DOMAIN.get(at[1]) or at in st.facts:
                    s.facts[at] = d
                res.append(s)
            return res
        if self.stable(a) and self.stable(b):
            if a[0] == "i" and b[0] != "i":
                a, b, pred = b, a, SWAP[pred]
            k, pos = self.factkey(pred, a, b)
            s = st.copy()
            if not (b[0] == "i" and pred in ("slt", "sle", "sgt", "sge", "eq")):
                s.facts[k] = pos
            if b[0] == "i" and pred[0] != "u":
                lo, hi = s.facts.get(("rng", a), (None, None))
                c = b[1]
                if pred == "eq":
                    lo = hi = c
                elif pred == "slt":
                    hi = c - 1 if hi is None else min(hi, c - 1)
                elif pred == "sle":
                    hi = c if hi is None else min(hi, c)
                elif pred == "sgt":
                    lo = c + 1 if lo is None else max(lo, c + 1)
                elif pred == "sge":
                    lo = c if lo is None else max(lo, c)
                if lo is not None and hi is not None and lo > hi:
                    return []
                if (lo, hi) != (None, None):
                    s.facts[("rng", a)] = (lo, hi)
            return [s]
        return [st]

    # -- memory -------------------------------------------------------------------
    def status_cell(self, p):
        """Cell key of a pointer to an error status, or None."""
        if p[0] == "p" and p[2] == 0 and p[1][0] in ("arg", "alloca"):
            return ("cell", p[1], 0)
        return None

    def field_atom(self, base, off):
        """Atom for a field of an array handle accessed directly."""
        t = self.ptr_struct(base)
        if t != "sdp_Mem" or off is None:
            return None
        m = {v: k for k, v in self.prog.mem_offsets().items()}.get(off)
        if m is None:
            return None
        h = ("p", base, 0)
        return {
            "type": ("atom", "type", h),
            "location": ("atom", "location", h),
            "num_dims": ("atom", "ndims", h),
            "num_elements": ("atom", "numel", h),
            "is_c_contiguous": ("atom", "contig", h),
            "is_read_only": ("atom", "ro", h),
            "data": ("p", ("data", h), 0),
        }.get(m)

    def ptr_struct(self, base):
        """Name of the struct a base pointer designates, if known."""
        if base[0] == "arg":
            d = self.fn.args[base[1]]["dbg"].replace("c", "", 1) \
                if self.fn.args[base[1]]["dbg"].startswith("*c:") else self.fn.args[base[1]]["dbg"]
            if d.startswith("*:"):
                return d[2:]
        if base[0] == "new":
            i = self.fn.inst.get(base[1])
            if i is not None and isinstance(i.ex, str):
                if i.ex in CREATE:
                    return "sdp_Mem"
                f = self.prog.funcs.get(i.ex)
                if f is not None and f.rdbg[:2] == "*:":
                    return f.rdbg[2:]
            return None
        if base[0] == "field":
            t = self.ptr_struct(base[1])
            s = self.prog.structs.get(t) if t else None
            if s:
                for n, o, d in s["members"]:
                    if o == base[2] and d.startswith("*:"):
                        return d[2:]
        return None

    def handle(self, v):
        """Canonical array handle of a pointer value."""
        if v[0] == "p" and v[2] == 0:
            return v
        if v[0] in ("new", "field", "top"):
            return ("p", v, 0)
        return v

    def load(self, i, st):
        p = self.val(i.ops[0], st)
        return self.load_from(p, i, st)

    def load_from(self, p, i, st):
        if p[0] != "p":
            return ("top", i.id)
        base, off = p[1], p[2]
        if off is None:
            return ("top", i.id)
        k = ("cell", base, off)
        if k in st.cells:
            return st.cells[k]
        if base[0] == "alloca":
            return ("top", i.id)
        if base[0] == "glob":
            g = self.prog.globals.get(base[1])
            if g and g.get("const") and "ints" in g:
                bits = int(g["type"].split(" x i")[1].rstrip("]"))
                ix = off * 8 // bits
                if 0 <= ix < len(g["ints"]):
                    return ("i", g["ints"][ix])
            return ("top", i.id)
        if base[0] == "data":
            return ("top", i.id)
        at = self.field_atom(base, off)
        if at is not None:
            return at
        if base[0] in ("arg", "field", "new"):
            v = ("field", base, off)
            if i.ty == "ptr":
                return ("p", v, 0)
            return v
        return ("top", i.id)

    # -- main loop ------------------------------------------------------------------
    def initial(self):
        st = State()
        fn = self.fn
        if fn.status_arg is not None:
            st.cells[("cell", ("arg", fn.status_arg), 0)] = \
                ("i", 0) if self.entry_status == "Z" else ("nz",)
        for k, v in self.overrides.items():
            st.facts[k] = v
        return st

    def status(self, st):
        if self.fn.status_arg is None:
            return None
        c = st.cells.get(("cell", ("arg", self.fn.status_arg), 0))
        return {("i", 0): "Z", ("nz",): "N"}.get(c, "?")

    def run(self):
        fn = self.fn
        if not fn.blocks:
            return self
        import heapq
        seen = defaultdict(dict)
        st = self.initial()
        work = [(0, 0, None)]
        pending = defaultdict(list)
        pending[0].append(st)
        queued = {0}
        heap = [(0, 0)]
        order = fn.loop_order() if self.shapes else fn.rpo_ix
        reps = defaultdict(dict)
        nerr = defaultdict(int)
        while heap:
            err_new = set()
            _, b = heapq.heappop(heap)
            queued.discard(b)
            sts = pending.pop(b, [])
            if self.shapes and len(sts) > 1:
                sts = fold(sts)
            new = []
            for s in sts:
                k = s.key()
                if k not in seen[b]:
                    seen[b][k] = True
                    new.append(s)
            # Accesses are only looked at while no error has been recorded.
            err = [s for s in new if self.status(s) == "N"] if self.shapes else []
            if err:
                nerr[b] += len(err)
                new = [s for s in new if self.status(s) != "N"]
                for s in err:
                    g, s = self.join_into(reps[b], s)
                    if s is not None:
                        new.append(s)
                        err_new.add(id(s))
            if len(seen[b]) - nerr[b] > JOIN_CAP:
                nn = []
                for s in new:
                    if id(s) in err_new:
                        nn.append(s)
                        continue
                    g, s = self.join_into(reps[b], s)
                    if s is not None:
                        nn.append(s)
                new = nn
                self.joined += 1
            if len(seen[b]) > 40 * STATE_CAP:
                raise Incomplete("%s: too many states at block %d" % (fn.name, b))
            for s in new:
                self.nstates += 1
                for tb, ts in self.exec_block(b, s):
                    pending[tb].append(ts)
                    if tb not in queued:
                        queued.add(tb)
                        heapq.heappush(heap, (order[tb], tb))
        return self

    def join_into(self, reps, st):
        """Join a state with the representative of its group at this block.

        States agreeing on memory, array facts, resources and pointer values
        are merged; a condition or integer on which they differ is forgotten.
        """
        hard = frozenset((k, v) for k, v in st.facts.items() if k[0] in ("atom", "null"))
        ptrs = frozenset((k, v) for k, v in st.env.items() if v[0] in ("p", "sel", "new"))
        turn = frozenset((i.id, st.env[i.id]) for h in self.short for i in self.fn.blocks[h]
                         if i.op == "phi" and i.id in st.env)
        g = (frozenset(st.cells.items()), hard, ptrs, turn, frozenset(st.res.items()), st.flags)
        r = reps.get(g)
        if r is None:
            reps[g] = st
            return g, st
        facts = {}
        for k, v in r.facts.items():
            w = st.facts.get(k)
            if w == v:
                facts[k] = v
            elif k[0] == "rng" and w is not None:
                lo = None if v[0] is None or w[0] is None else min(v[0], w[0])
                hi = None if v[1] is None or w[1] is None else max(v[1], w[1])
                # widen: a bound that moved is dropped
                lo = lo if lo == v[0] else None
                hi = hi if hi == v[1] else None
                if (lo, hi) != (None, None):
                    facts[k] = (lo, hi)
        if self.shapes:
            # what a relation that is forgotten here was about
            lost = set(r.facts.get(("lost",), ())) | set(st.facts.get(("lost",), ()))
            for x, y in ((r.facts, st.facts), (st.facts, r.facts)):
                for k, v in x.items():
                    if k[0] in ("cond", "rng") and y.get(k) != v and facts.get(k) != v:
                        base_atoms(k, lost)
            if lost:
                facts[("lost",)] = frozenset(lost)
        env = {k: v for k, v in r.env.items() if st.env.get(k) == v}
        if facts == r.facts and env == r.env:
            return g, None
        n = st.copy()
        n.facts = facts
        n.env = env
        reps[g] = n
        return g, n

    def exec_block(self, b, st):
        st = st.copy()
        fn = self.fn
        states = [st]
        blk = fn.blocks[b]
        if self.hooks:
            for s in states:
                self.hooks.on_block(self, b, s)
        for i in blk:
            if i.op == "phi":
                continue
            if i.idx == len(blk) - 1:
                break
            nxt = []
            for s in states:
                r = self.step(i, s)
                if r is None:
                    nxt.append(s)
                else:
                    nxt.extend(r)
            states = nxt
            if not states:
                return []
            if len(states) > 1:
                ded = {}
                for s in states:
                    ded.setdefault(s.key(), s)
                states = list(ded.values())
        t = blk[-1]
        out = []
        for s in states:
            if t.op == "ret":
                rv = self.val(t.ops[0], s) if t.ops else None
                if self.hooks:
                    self.hooks.on_exit(self, t, s, rv)
                self.exits.append((s, rv))
            elif t.op == "br":
                if len(t.ex) == 1:
                    out += self.edge(b, t.ex[0], s)
                else:
                    c = self.val(t.ops[0], s)
                    if c[0] not in ("cmp", "not", "and", "or", "i", "nz"):
                        c = ("cmp", "ne", c, ("i", 0))
                    for want, tgt in ((True, t.ex[0]), (False, t.ex[1])):
                        for r in self.refine(s, c, want):
                            if self.hooks:
                                r = self.hooks.on_branch(self, t, r, c, want) or r
                            out += self.edge(b, tgt, r)
            elif t.op == "switch":
                v = self.val(t.ops[0], s)
                rest = [s]
                for c, tgt in t.ex[1:]:
                    for r in self.refine(s, ("cmp", "eq", v, ("i", c)), True):
                        out += self.edge(b, tgt, r)
                    nr = []
                    for x in rest:
                        nr += self.refine(x, ("cmp", "eq", v, ("i", c)), False)
                    rest = nr
                for x in rest:
                    out += self.edge(b, t.ex[0], x)
            elif t.op == "unreachable":
                if self.hooks:
                    self.hooks.on_unreachable(self, t, s)
        return out

    def edge(self, b, tgt, st):
        fn = self.fn
        s = st.copy()
        newv = {}
        back = (b, tgt) in fn.back
        for i in fn.blocks[tgt]:
            if i.op != "phi":
                break
            for o, p in zip(i.ops, i.ex):
                if p == b:
                    v = self.val(o, st)
                    break
            else:
                continue
            if v[0] == "top" or v[0] == "undef" or self.shapes and v[0] == "i" and \
                    tgt in fn.headers and tgt not in self.short and self.counts(i, tgt) or \
                    self.shapes and i.ty in ("i32", "i64") and tgt not in fn.headers and \
                    len(set(map(str, i.ops))) > 1 and self.counted_choice(tgt):
                newv[i.id] = None
            elif tgt in fn.headers and back and v != st.env.get(i.id) and v[0] == "i" \
                    and not self.unroll and tgt not in self.short:
                newv[i.id] = None
            elif v[0] in ("op",) and tgt in fn.headers and back and not self.unroll \
                    and tgt not in self.short:
                newv[i.id] = None
            elif v[0] in ("cmp", "and", "or", "not") and not self.bool_stable(v):
                t = self.truth(v, st)
                newv[i.id] = None if t is None else ("i", int(t))
            elif v[0] == "p" and back and v[2] is not None and v != st.env.get(i.id):
                newv[i.id] = ("p", v[1], None) if v[1][0] != "field" else None
            else:
                newv[i.id] = v
        for k, v in newv.items():
            if v is None:
                s.env.pop(k, None)
            else:
                s.env[k] = v
        live = self.live_in[tgt]
        phis = {i.id for i in fn.blocks[tgt] if i.op == "phi"}
        for k in [k for k in s.env if k not in live and k not in phis and k not in self.keep]:
            del s.env[k]
        # In an error state the array facts no longer matter: merge them.
        if self.status(s) == "N" and (self.hooks is None or not self.hooks.keep_error_facts):
            s.facts = {k: v for k, v in s.facts.items() if k[0] == "null"}
        if self.hooks:
            self.hooks.on_edge(self, b, tgt, s)
        return [(tgt, s)]

    def counted_choice(self, b):
        """Whether a condition on a loop counter decides how a block is reached."""
        if b not in self.choices:
            fn = self.fn
            top = fn.dominators().get(b)
            seen, work = set(), list(fn.pred[b])
            while work:
                x = work.pop()
                if x in seen or x == b:
                    continue
                seen.add(x)
                if x != top:
                    work.extend(fn.pred[x])
            self.choices[b] = any(self.counted(fn.blocks[x][-1].ops[0], set()) for x in seen
                                  if fn.blocks[x][-1].op == "br" and fn.blocks[x][-1].ops)
        return self.choices[b]

    def counted(self, v, seen):
        i = self.fn.inst.get(v) if isinstance(v, int) else None
        if i is None or v in seen:
            return False
        seen.add(v)
        if i.op == "phi" and i.block in self.fn.headers:
            return i.block not in self.short and i.ty in ("i32", "i64")
        return i.op in ("icmp", "add", "sub", "mul", "shl", "sext", "zext", "trunc", "select", "and",
                        "or", "xor", "freeze", "phi", "sdiv", "srem", "udiv", "urem", "ashr") and \
            any(self.counted(o, seen) for o in i.ops)

    def counts(self, i, h):
        """Whether a value at the start of a loop is counted up or down by it."""
        for o, p in zip(i.ops, i.ex):
            if (p, h) in self.fn.back:
                g = self.fn.inst.get(o) if isinstance(o, int) else None
                if g is None or g.op not in ("add", "sub") or i.id not in g.ops:
                    return False
        return True

    def bool_stable(self, v):
        if v[0] == "cmp":
            return self.stable(v[2]) and self.stable(v[3])
        if v[0] == "not":
            return self.bool_stable(v[1])
        if v[0] in ("and", "or"):
            return self.bool_stable(v[1]) and self.bool_stable(v[2])
        return self.stable(v)

    def setv(self, i, v, st):
        if v is None or v[0] in ("top", "undef"):
            st.env.pop(i.id, None)
        else:
            st.env[i.id] = v

    # -- transfer ------------------------------------------------------------------------
    def step(self, i, st):
        op = i.op
        if op == "load":
            v = self.load(i, st)
            if self.hooks:
                self.hooks.on_access(self, i, st, "load", self.val(i.ops[0], st), i.ty)
            self.setv(i, v, st)
            return None
        if op == "store":
            p = self.val(i.ops[1], st)
            v = self.val(i.ops[0], st)
            if self.hooks:
                self.hooks.on_access(self, i, st, "store", p, i.ex)
                self.hooks.on_store(self, i, st, p, v)
            self.store_to(p, v, st, i)
            return None
        if op in ("atomicrmw", "cmpxchg"):
            p = self.val(i.ops[0], st)
            if self.hooks:
                self.hooks.on_access(self, i, st, "store", p, i.ty)
                self.hooks.on_store(self, i, st, p, ("top", i.id))
            self.store_to(p, ("top", i.id), st, i)
            st.env.pop(i.id, None)
            return None
        if op in ("call", "invoke"):
            return self.call(i, st)
        return None

    def store_to(self, p, v, st, i):
        if p[0] != "p":
            if p[0] == "sel":
                for x in p[1]:
                    self.kill(x, st)
            return
        base, off = p[1], p[2]
        if base[0] in ("alloca", "arg", "field", "new", "heap"):
            if off is None:
                self.kill(p, st)
                return
            k = ("cell", base, off)
            if self.fn.status_arg is not None and base == ("arg", self.fn.status_arg):
                if v[0] == "i":
                    st.cells[k] = ("i", 0) if v[1] == 0 else ("nz",)
                elif v[0] == "nz":
                    st.cells[k] = v
                else:
                    st.cells[k] = v
                return
            if self.shapes and base[0] == "alloca" and i.op == "store" and \
                    isinstance(i.ops[0], int) and v[0] not in ("p", "sel", "undef") and \
                    self.fn.inst[i.ops[0]].ty in ("i32", "i64") and \
                    (not self.stable(v) or self.turning(i.ops[0])):
                st.cells[k] = ("top", i.ops[0])
                return
            if v[0] in ("top", "undef"):
                st.cells.pop(k, None)
                if base[0] in ("arg", "field", "new"):
                    st.cells[k] = ("top", i.id)
            else:
                if v[0] in ("op", "cmp", "and", "or", "not") and not self.bool_stable(v):
                    v = ("top", i.id)
                if v[0] == "p" and v[2] and (v[1][0] == "top" or abs(v[2]) > 256):
                    v = ("p", v[1], None)
                st.cells[k] = v

    def turning(self, o):
        """The value is one that a loop changes."""
        work, seen = [o], set()
        while work:
            o = work.pop()
            if not isinstance(o, int) or o in seen:
                continue
            seen.add(o)
            i = self.fn.inst[o]
            if i.op == "phi" and i.block in self.fn.headers and i.block not in self.short:
                return True
            if i.op in ("sext", "zext", "trunc", "freeze", "phi", "select", "add", "sub", "mul",
                        "shl", "sdiv", "srem", "udiv", "urem"):
                work.extend(i.ops)
        return False

    def kill(self, p, st):
        if p[0] == "p":
            for k in [k for k in st.cells if k[1] == p[1]]:
                if self.fn.status_arg is not None and k[1] == ("arg", self.fn.status_arg):
                    continue
                del st.cells[k]

    @staticmethod
    def forget(st, base):
        """Drop what is known of an object that no longer exists."""
        h = ("p", base, 0)
        for v in st.facts.values():
            if isinstance(v, tuple) and v and v[0] == "alias" and repr(h) in repr(v[1]):
                return
        for k in [k for k in st.facts if k == ("null", base) or k == ("null", ("data", h)) or
                  (k[0] == "atom" and k[2] == h)]:
            del st.facts[k]

    def havoc_args(self, i, st, vals, skip=()):
        """A call may write through any pointer to local memory it is given."""
        fn = self.prog.funcs.get(i.ex) if isinstance(i.ex, str) else None
        for n, v in enumerate(vals):
            if n in skip:
                continue
            if self.shapes and fn is not None and n < len(fn.args) and \
                    str(fn.args[n].get("dbg")).startswith("*c:"):
                continue
            for x in (v[1] if v[0] == "sel" else (v,)):
                if x[0] == "p" and x[1][0] in ("alloca", "heap"):
                    w = written_offsets(self.prog, fn, n) if fn is not None and \
                        x[1][0] == "heap" else None
                    if isinstance(i.ex, str) and i.ex.startswith(("_ZNSt", "_ZNKSt")) and \
                            x[1][0] == "heap" and x[2] is not None:
                        # a library container only changes itself
                        for k in [k for k in st.cells if k[1] == x[1] and
                                  x[2] <= k[2] < x[2] + 64]:
                            del st.cells[k]
                        continue
                    if w is None or x[2] is None:
                        self.kill(x, st)
                        continue
                    for o in w:
                        for k in [k for k in st.cells if k[1] == x[1] and
                                  x[2] + o[0] - 16 < k[2] < x[2] + o[0] + o[1]]:
                            del st.cells[k]

    def call(self, i, st):
        name = i.ex
        if isinstance(name, list):
            vals = [self.val(o, st) for o in i.ops]
            if self.hooks:
                self.hooks.on_call(self, i, st, None, vals)
            self.havoc_args(i, st, vals)
            st.env.pop(i.id, None)
            return None
        if name.startswith(HARMLESS_PREFIX):
            if name.startswith("llvm.lifetime.") and len(i.ops) > 1:
                self.kill(self.val(i.ops[1], st), st)
            return None
        vals = [self.val(o, st) for o in i.ops]
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            if self.hooks:
                self.hooks.on_access(self, i, st, "load", vals[1], ("mem", vals[2]))
                self.hooks.on_access(self, i, st, "store", vals[0], ("mem", vals[2]))
            src, dst, n = vals[0], vals[1], vals[2]
            self.copy_cells(vals[0], vals[1], vals[2], st, i)
            return None
        if name.startswith("llvm.memset"):
            if self.hooks:
                self.hooks.on_access(self, i, st, "store", vals[0], ("mem", vals[2]))
            p = vals[0]
            self.kill(p, st)
            if p[0] == "p" and p[2] is not None and vals[1] == ("i", 0) and vals[2][0] == "i" \
                    and vals[2][1] <= 256:
                for o in range(0, vals[2][1], 4):
                    st.cells[("cell", p[1], p[2] + o)] = ("i", 0)
            return None
        if name in ACCESSOR:
            h = self.handle(vals[0])
            at = ("atom", ACCESSOR[name][0], h)
            self.setv(i, self.atom(at, st), st)
            if self.hooks:
                self.hooks.on_call(self, i, st, name, vals)
            return None
        if name in PRED and PRED[name]:
            h = self.handle(vals[0])
            e = self.canon(self.atom(("atom", "type", h), st), st)
            if e[0] == "i":
                v = ("i", PRED[name](e[1]))
            elif e[0] == "atom":
                v = ("pred", name, e)
                d = {PRED[name](t) for t in self.domain(e, st)}
                if len(d) == 1:
                    v = ("i", d.pop())
            else:
                v = ("top", i.id)
            self.setv(i, v, st)
            return None
        if name == "sdp_mem_shape_dim":
            d = vals[1]
            v = ("atom", "shape%d" % d[1], self.handle(vals[0])) if d[0] == "i" else ("top", i.id)
            self.setv(i, v, st)
            return None
        if name in ("sdp_mem_stride_elements_dim", "sdp_mem_stride_bytes_dim"):
            d = vals[1]
            v = ("atom", "stride%s%d" % ("B" if "bytes" in name else "", d[1]),
                 self.handle(vals[0])) if d[0] == "i" else ("top", i.id)
            self.setv(i, v, st)
            return None
        if name in DATA:
            if self.hooks:
                self.hooks.on_call(self, i, st, name, vals)
            self.setv(i, ("p", ("data", self.handle(vals[0])), 0), st)
            return None
        if self.hooks:
            r = self.hooks.on_call(self, i, st, name, vals)
            if r is not None:
                return r
        if name in HEAP_NEW:
            v = ("p", ("heap", i.id), 0)
            self.setv(i, v, st)
            for k in [k for k in st.cells if k[1] == ("heap", i.id)]:
                del st.cells[k]
            st.facts.pop(("null", ("heap", i.id)), None)
            if self.hooks:
                self.hooks.on_new(self, i, st, name, vals, ("heap", i.id))
            return None
        if name in HEAP_DEL:
            return None
        return self.call_model(i, st, name, vals)

    def atom(self, at, st):
        """Attribute of a handle; created handles resolve to their arguments."""
        return at

    def copy_cells(self, dst, src, n, st, i):
        moved = {}
        if src[0] == "p" and n[0] == "i" and src[2] is not None and \
                dst[0] == "p" and dst[2] is not None:
            if src[1][0] == "glob":
                g = self.prog.globals.get(src[1][1])
                if g and g.get("const") and "ints" in g:
                    bits = int(g["type"].split(" x i")[1].rstrip("]"))
                    for ix, v in enumerate(g["ints"]):
                        moved[ix * bits // 8] = ("i", v)
            else:
                for k, v in st.cells.items():
                    if k[1] == src[1] and src[2] <= k[2] < src[2] + n[1]:
                        moved[k[2] - src[2]] = v
        self.kill(dst, st)
        if dst[0] == "p" and dst[2] is not None:
            for o, v in moved.items():
                st.cells[("cell", dst[1], dst[2] + o)] = v

    def call_model(self, i, st, name, vals):
        fn = self.prog.funcs.get(name)
        sarg = None
        if fn is not None:
            sarg = fn.status_arg
        elif name in STATUS_EXTERN:
            sarg = STATUS_EXTERN[name]
        self.havoc_args(i, st, vals, skip=() if sarg is None else (sarg,))
        is_ptr = i.ty == "ptr"
        created = name in CREATE or (is_ptr and fn is not None and
                                     self.returns_new(fn))
        states = [st]
        if sarg is not None and sarg < len(vals):
            c = self.status_cell(vals[sarg])
            states = []
            if c is None:
                states = [st]
            else:
                cur = st.cells.get(c)
                if cur == ("nz",):
                    states = [st]
                else:
                    summ = self.prog_summary(fn)
                    if summ is None or summ["can_fail"]:
                        bad = st.copy()
                        bad.cells[c] = ("nz",)
                        states.append(bad)
                    if summ is None or summ["can_succeed"]:
                        ok = st.copy()
                        ok.cells[c] = ("i", 0)
                        ok = self.apply_summary(ok, summ, vals)
                        if ok is not None:
                            states.append(ok)
        for s in states:
            if created:
                nv = ("new", i.id)
                for k in [k for k in s.facts if k == ("null", nv)
                          or (k[0] == "atom" and k[2] == ("p", nv, 0))]:
                    del s.facts[k]
                # facts aliased to attributes of the previous instance
                for k, v in list(s.facts.items()):
                    if isinstance(v, tuple) and v and v[0] == "alias" and \
                            v[1][0] == "atom" and v[1][2] == ("p", nv, 0):
                        del s.facts[k]
                for k in [k for k in s.cells if k[1] == nv]:
                    del s.cells[k]
                s.env[i.id] = ("p", nv, 0)
                self.init_handle(i, s, name, vals, nv)
                if self.hooks:
                    self.hooks.on_new(self, i, s, name, vals, nv)
            else:
                s.env.pop(i.id, None)
                if is_ptr and fn is not None and fn.rdbg.endswith(":sdp_Mem"):
                    h = ("p", ("top", i.id), 0)
                    for k in [k for k in s.facts if k[0] == "atom" and k[2] == h]:
                        del s.facts[k]
                    consts = tuple((k, v[1]) for k, v in enumerate(vals) if v[0] == "i")
                    for attr, d in return_facts(self.prog, fn, consts).items():
                        s.facts[("atom", attr, h)] = d
        if self.hooks:
            for s in states:
                self.hooks.after_call(self, i, s, name, vals)
        return states

    def init_handle(self, i, s, name, vals, nv):
        h = ("p", nv, 0)

        def put(attr, v):
            at = ("atom", attr, h)
            v = self.canon(v, s)
            if v[0] == "i":
                s.facts[at] = frozenset((v[1],))
            elif v[0] == "atom" or (v[0] in ("arg", "ite", "op", "field") and self.stable(v)):
                s.facts[at] = ("alias", v)
        if name in ("sdp_mem_create", "sdp_mem_create_wrapper"):
            t, l = CREATE[name]
            put("type", vals[t])
            put("location", vals[l])
            put("ndims", vals[l + 1])
            s.facts[("atom", "ro", h)] = frozenset((0,))
            if self.shapes:
                self.put_shape(i, s, h, vals[l + 1], vals[l + 2])
            if name == "sdp_mem_create" or (len(vals) > 5 and self.nullness(vals[5], s) is True):
                s.facts[("atom", "contig", h)] = frozenset((1,))
        elif name == "sdp_mem_create_copy":
            src = self.handle(vals[0])
            put("type", ("atom", "type", src))
            put("location", vals[1])
            put("ndims", ("atom", "ndims", src))
            put("contig", ("atom", "contig", src))
            s.facts[("atom", "ro", h)] = frozenset((0,))
            if self.shapes:
                for d in range(6):
                    put("shape%d" % d, ("atom", "shape%d" % d, src))
                put("numel", ("atom", "numel", src))
        elif name in ("sdp_mem_create_alias", "sdp_mem_ref_inc", "sdp_mem_convert_precision"):
            src = self.handle(vals[0])
            if self.shapes:
                for d in range(6):
                    put("shape%d" % d, ("atom", "shape%d" % d, src))
                put("numel", ("atom", "numel", src))
            if name == "sdp_mem_convert_precision":
                return
            for a in ("type", "location", "ndims", "contig", "ro"):
                put(a, ("atom", a, src))
        elif name == "sdp_mem_create_wrapper_for_slice":
            src = self.handle(vals[0])
            put("type", ("atom", "type", src))
            put("location", ("atom", "location", src))
            put("ro", ("atom", "ro", src))
            put("ndims", vals[2])

    def put_shape(self, i, s, h, nd, p):
        """The dimensions that an array is made with."""
        if nd[0] != "i" or p[0] != "p" or p[2] is None:
            return
        for d in range(nd[1]):
            v = s.cells.get(("cell", p[1], p[2] + 8 * d))
            if v is None and p[1][0] == "glob":
                g = self.prog.globals.get(p[1][1])
                if g and g.get("const") and "ints" in g and p[2] // 8 + d < len(g["ints"]):
                    v = ("i", g["ints"][p[2] // 8 + d])
            if v is None:
                continue
            v = self.canon(v, s)
            if v[0] == "top" and isinstance(v[1], int):
                b = self.fn.inst[v[1]].block
                if any(b in body and i.block not in body for body in self.fn.loops.values()):
                    continue
            elif v[0] != "i" and not self.stable(v):
                continue
            s.facts[("atom", "shape%d" % d, h)] = frozenset((v[1],)) if v[0] == "i" else \
                ("alias", v)

    def returns_new(self, fn):
        r = self.prog.__dict__.setdefault("_newfn", {})
        if fn.name not in r:
            r[fn.name] = False
            for blk in fn.blocks:
                t = blk[-1]
                if t.op == "ret" and t.ops:
                    v = self.src_alloc(fn, t.ops[0], set())
                    if v:
                        r[fn.name] = True
        return r[fn.name]

    def src_alloc(self, fn, v, seen):
        if not isinstance(v, int) or v in seen:
            return False
        seen.add(v)
        i = fn.inst[v]
        if i.op == "phi":
            return any(self.src_alloc(fn, o, seen) for o in i.ops)
        if i.op == "select":
            return any(self.src_alloc(fn, o, seen) for o in i.ops[1:])
        if i.op == "call" and isinstance(i.ex, str):
            if i.ex in HEAP_NEW or i.ex in CREATE:
                return True
            f = self.prog.funcs.get(i.ex)
            return bool(f and f.ret == "ptr" and f is not fn and self.returns_new(f))
        return False

    # -- summaries --------------------------------------------------------------------
    def prog_summary(self, fn):
        if fn is None:
            return None
        return summary(self.prog, fn)

    def apply_summary(self, st, summ, vals):
        if summ is None:
            return st
        for (attr, k), dom in summ["facts"].items():
            if k >= len(vals):
                continue
            h = self.handle(vals[k])
            at = self.canon(("atom", attr, h), st)
            if at[0] != "atom":
                d = self.edom(attr, h, st)
                if d is not None and not d & dom:
                    return None
                continue
            cur = self.domain(at, st)
            d = dom if cur is None else (cur & dom)
            if not d:
                return None
            st.facts[at] = d
        return st


STATUS_EXTERN = {}

SIZES = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "float": 4, "double": 8, "ptr": 8}


def written_offsets(prog, fn, k):
    """(offset, size) pairs a function may write through argument k; None: any."""
    cache = prog.__dict__.setdefault("_woff", {})
    key = (fn.name, k)
    if key in cache:
        return cache[key]
    cache[key] = frozenset()  # recursion: least fixpoint of a union
    if k >= len(fn.args) or not fn.blocks:
        cache[key] = None
        return None
    der = {"a%d" % k: 0}  # derived pointers -> offset (None: unknown)
    changed = True
    while changed:
        changed = False
        for i in fn.inst.values():
            if i.id in der and der[i.id] is None:
                continue
            new = ()
            if i.op == "getelementptr" and i.ops[0] in der:
                b = der[i.ops[0]]
                if b is None or not isinstance(i.ex, list) or i.ex[1]:
                    new = (None,)
                else:
                    new = (b + i.ex[0],)
            elif i.op in ("bitcast", "addrspacecast", "freeze") and i.ops[0] in der:
                new = (der[i.ops[0]],)
            elif i.op in ("phi", "select"):
                new = tuple(der[o] for o in i.ops if o in der)
            for o in new:
                v = o if i.id not in der or der[i.id] == o else None
                if i.id not in der or der[i.id] != v:
                    der[i.id] = v
                    changed = True
    out = set()
    for i in fn.inst.values():
        if i.op == "store":
            if i.ops[0] in der:
                out = None
            elif i.ops[1] in der:
                out = None if der[i.ops[1]] is None else out | {
                    (der[i.ops[1]], SIZES.get(i.ex, 64))}
        elif i.op in ("atomicrmw", "cmpxchg", "ptrtoint"):
            if any(o in der for o in i.ops):
                out = None
        elif i.op in ("call", "invoke"):
            for n, o in enumerate(i.ops):
                if o not in der:
                    continue
                g = i.ex
                if not isinstance(g, str):
                    out = None
                elif g.startswith(HARMLESS_PREFIX) or g in HEAP_DEL:
                    pass
                elif g.startswith(("llvm.memcpy", "llvm.memmove")) and n == 1:
                    pass
                else:
                    gf = prog.funcs.get(g)
                    w = written_offsets(prog, gf, n) if gf is not None else None
                    if w is None or (w and der[o] is None):
                        out = None
                    else:
                        out = out | {(der[o] + x, z) for x, z in w} if w else out
                if out is None:
                    break
        if out is None:
            break
    cache[key] = None if out is None else frozenset(out)
    return cache[key]


def summary(prog, fn):
    """Facts that hold on return when the callee leaves the status at zero."""
    if fn.name in prog.summaries:
        return prog.summaries[fn.name]
    prog.summaries[fn.name] = None  # recursion guard
    if fn.status_arg is None:
        return None
    it = Interp(prog, fn)
    it.run()
    return make_summary(prog, fn, it)


def make_summary(prog, fn, it):
    can_fail = can_ok = False
    facts = None
    for st, _ in it.exits:
        s = it.status(st)
        if s != "Z":
            can_fail = True
        if s != "N":
            can_ok = True
            f = {}
            for k, a in enumerate(fn.args):
                if not a["dbg"].endswith(":sdp_Mem"):
                    continue
                h = ("p", ("arg", k), 0)
                if st.facts.get(("null", ("arg", k))) is True:
                    continue
                for attr in ("type", "location", "ndims", "contig", "ro"):
                    d = it.edom(attr, h, st)
                    if d is not None and d != DOMAIN.get(attr):
                        f[(attr, k)] = d
            if facts is None:
                facts = f
            else:
                facts = {x: facts[x] | f[x] for x in facts if x in f}
    prog.summaries[fn.name] = {"can_fail": can_fail, "can_succeed": can_ok,
                               "facts": facts or {}, "states": it.nstates}
    return prog.summaries[fn.name]


ATTRS = ("type", "location", "ndims", "contig", "ro")


def handle_facts(it, v, st):
    """What is known of the array(s) a pointer designates; None if null."""
    if v == ("i", 0):
        return None
    out = None
    for x in (v[1] if v[0] == "sel" else (v,)):
        if x == ("i", 0):
            continue
        f = {}
        if x[0] == "p" and x[2] == 0:
            for a in ATTRS:
                d = it.edom(a, x, st)
                if d is not None and d != DOMAIN.get(a):
                    f[a] = d
        out = f if out is None else meet_facts(out, f)
    return out


def meet_facts(f, g):
    return {a: f[a] | g[a] for a in f if a in g}


def field_invariants(prog, pmap=None):
    """Facts true of every array that is ever stored in a field of a plan.

    Every store to a field of a struct that some public function returns is
    collected: in the function that creates it and wherever else it is written.
    """
    makers = {f.rdbg[2:] for f in prog.funcs.values()
              if f.public and f.rdbg[:2] == "*:" and f.rdbg[2:] in prog.structs}
    makers.discard("sdp_Mem")

    class Stores(Hooks):
        def __init__(self):
            self.rows = {}
            self.ret = set()

        def on_store(self, it, i, st, p, v):
            if i.op != "store" or i.ex != "ptr":
                return
            for x in (p[1] if p[0] == "sel" else (p,)):
                if x[0] == "p" and x[1][0] in ("arg", "field", "new", "heap"):
                    f = handle_facts(it, v, st)
                    if f is None:
                        continue
                    k = (x[1], x[2])
                    self.rows[k] = f if k not in self.rows else meet_facts(self.rows[k], f)

        def on_exit(self, it, i, st, rv):
            if rv is not None:
                for x in (rv[1] if rv[0] == "sel" else (rv,)):
                    if x[0] == "p":
                        self.ret.add(x[1])

    inv = {}

    def put(k, f):
        inv[k] = f if k not in inv else meet_facts(inv[k], f)
    unknown = set()

    def one(name):
        fn = prog.funcs[name]
        h = Stores()
        it = Interp(prog, fn, hooks=h)
        it.run()
        out = []
        for (b, off), f in h.rows.items():
            s = it.ptr_struct(b)
            if s is None and b in h.ret and fn.rdbg[:2] == "*:":
                s = fn.rdbg[2:]
            out.append((s, off, f))
        return out
    names = []
    for fn in prog.funcs.values():
        stores = any(i.op == "store" and i.ex == "ptr" for i in fn.inst.values())
        touches = fn.rdbg[2:] in makers or any(
            a["dbg"].split(":")[-1] in makers for a in fn.args)
        if stores and touches:
            names.append(fn.name)
    names.sort(key=lambda n: -len(prog.funcs[n].inst))
    for rows in (pmap or map)(one, names):
        for s, off, f in rows:
            if s in makers:
                if off is None:
                    unknown.add(s)
                else:
                    put((s, off), f)
    return {k: v for k, v in inv.items() if v and k[0] not in unknown}


def return_facts(prog, fn, consts=()):
    """Facts of the array handle a function returns, given constant arguments."""
    small = tuple((k, v) for k, v in consts if fn.args[k]["type"] in ("i32", "i64")
                  and "sdp_MemLocation" in fn.args[k]["dbg"])
    cache = prog.__dict__.setdefault("_retfacts", {})
    key = (fn.name, small)
    if key not in cache:
        cache[key] = {}
        it = Interp(prog, fn, overrides={("rng", ("arg", k)): (v, v) for k, v in small})
        it.run()
        out = None
        for st, rv in it.exits:
            if it.status(st) == "N" or rv is None:
                continue
            f = handle_facts(it, rv, st)
            if f is not None:
                out = f if out is None else meet_facts(out, f)
        cache[key] = out or {}
    return cache[key]


class Hooks(object):
    keep_error_facts = False

    def on_block(self, it, b, st):
        pass

    def on_access(self, it, i, st, kind, ptr, ty):
        pass

    def on_store(self, it, i, st, p, v):
        pass

    def on_call(self, it, i, st, name, vals):
        return None

    def after_call(self, it, i, st, name, vals):
        pass

    def on_new(self, it, i, st, name, vals, nv):
        pass

    def on_exit(self, it, i, st, rv):
        pass

    def on_branch(self, it, i, st, c, want):
        return None

    def on_edge(self, it, b, tgt, st):
        pass

    def on_unreachable(self, it, i, st):
        pass
