"""Observations made while interpreting each public function.

One pass per function and entry status collects, for every rule, the obligations
met (instances) and the ones that failed (findings).
"""
import re

import absint
from absint import TYPES, Hooks

F, D, CF, CD, INT, CHAR, VOID = 4, 8, 36, 40, 2, 1, 0
ELEM = {"float": {F, CF}, "double": {D, CD}, "i32": {INT}, "i8": {CHAR},
        "<2 x float>": {CF}, "<2 x double>": {CD}, "cf": {CF}, "cd": {CD}}
SIZE = {0: 0, 1: 1, 2: 4, 4: 4, 8: 8, 36: 8, 40: 16}
MEMSIZE = {4: {F, INT}, 8: {CF, D}, 16: {CD}}
SRC = "/src/ska-sdp-func/"

# Functions that give a reference back.
RELEASE = re.compile(r"^(free|_ZdlPv|_ZdlPvm|_ZdaPv|sdp_mem_free|sdp_mem_ref_dec|"
                     r"sdp_mutex_free|sdp_timers?_free|sdp_\w+_free|sdp_\w+_free_plan)$")
# Functions documented to go through the storage in memory order: their arrays.
MEMORY_ORDER = {"sdp_mem_copy_contents": (0, 1), "sdp_mem_copy_contents_async": (0, 1),
                "sdp_mem_clear_portion": (0,), "sdp_mem_random_fill": (0,)}
# Transforms of the bundled header library: reads argument 5, writes argument 6.
TRANSFORM = re.compile(r"^_ZN9pocketfft\w*?3c2cI([fd])E")
LAUNCH = "sdp_launch_cuda_kernel"


def bases(p):
    if p[0] == "sel":
        for x in p[1]:
            for y in bases(x):
                yield y
    elif p[0] == "p":
        yield p


def short(f):
    k = f.find(SRC)
    return f[k + len(SRC):] if k >= 0 else f


def it_operands(g):
    ops = list(g.ops)
    if g.op == "getelementptr" and isinstance(g.ex, list) and len(g.ex) == 3:
        ops = ops[:1] + [t[0] for t in g.ex[1]]
    return [o for o in ops if isinstance(o, int)]


def both(x, y):
    """Parts of a sum. B stands for the value of the previous time round a loop."""
    k = {x, y}
    if "V" in k:
        return "V"
    if k == {"B", "C"}:
        return "V"
    if "S" in k:
        return "S"
    return "B" if "B" in k else "C"


def join(ks):
    k = set(ks)
    if "V" in k:
        return "V"
    return "S" if "S" in k else "C" if "C" in k else "B"


class Names(object):
    def __init__(self, prog, fn):
        self.prog, self.fn = prog, fn

    def off(self, struct, off):
        s = self.prog.structs.get(struct) if struct else None
        if s:
            for n, o, d in s["members"]:
                if o == off:
                    return n
        return "+%s" % off

    def made(self, iid):
        i = self.fn.inst[iid]
        f, l, n = self.fn.where(i.loc)
        for g in self.fn.chain(i.loc):
            if SRC in g[0]:
                f, l, n = g
                break
        v = self.fn.var_of(iid)
        if v:
            return "local '%s'" % v
        return "%s made in %s" % (i.ex if isinstance(i.ex, str) else "value", n)

    def base(self, it, b):
        if b[0] == "arg":
            return self.fn.argname(b[1])
        if b[0] == "field":
            return "%s->%s" % (self.base(it, b[1]), self.off(it.ptr_struct(b[1]), b[2]))
        if b[0] in ("new", "heap"):
            return self.made(b[1])
        if b[0] == "data":
            return self.handle(it, b[1])
        if b[0] == "glob":
            return b[1]
        if b[0] == "top" and isinstance(b[1], int):
            return self.made(b[1])
        if b[0] == "alloca":
            return self.fn.inst[b[1]].name or "local"
        return str(b)

    def handle(self, it, h):
        if h[0] == "p":
            return self.base(it, h[1])
        return str(h)


class Rules(Hooks):
    def __init__(self, prog, fn, entry):
        self.prog, self.fn, self.entry = prog, fn, entry
        self.names = Names(prog, fn)
        self.inst = {}    # rule -> set of instance keys
        self.found = {}   # rule -> {key: detail}
        self.loopw = {}   # outermost loop header -> handles written inside
        self.exit_rows = []
        self.origin = {}
        self.writes = set()
        self._loops()
        self.stcells = {}

    def _loops(self):
        fn = self.fn
        self.outer = {}
        for h, body in fn.loops.items():
            for b in body:
                o = self.outer.get(b)
                if o is None or len(fn.loops[o]) < len(body):
                    self.outer[b] = h
        eff = set()
        for b, blk in enumerate(fn.blocks):
            if b in self.outer and any(i.op in ("store", "call", "invoke", "atomicrmw")
                                       for i in blk):
                eff.add(self.outer[b])
        self.effloops = eff

    def obl(self, rule, key, ok, detail=None, loc=None):
        self.inst.setdefault(rule, {}).setdefault(key, loc)
        if not ok:
            self.found.setdefault(rule, {}).setdefault(key, (detail, loc))

    def at(self, i):
        w = self.fn.where(i.loc)
        return "%s:%d" % (short(w[0]), w[1])

    def repo_at(self, i):
        """Innermost position in the repository's own sources."""
        for f, l, n in self.fn.chain(i.loc):
            if SRC in f:
                return "%s:%d" % (short(f), l)
        return self.at(i)

    def repo_fn(self, i):
        for f, l, n in self.fn.chain(i.loc):
            if SRC in f:
                return n
        return self.fn.name

    # -- array data -----------------------------------------------------------
    def on_block(self, it, b, st):
        if b in self.effloops:
            st.flags = st.flags | {("L", b)}

    def on_access(self, it, i, st, kind, ptr, ty):
        for p in bases(ptr):
            b = p[1]
            if b[0] == "data":
                self.array_access(it, i, st, kind, p, ty)
            elif b[0] in ("new", "heap") and st.res.get(b) == "freed":
                self.obl("RES", ("use after release", self.names.base(it, b)), False,
                         "%s used after it was released" % self.names.base(it, b), self.repo_at(i))
            if kind == "store":
                if self.entry == "N" and b[0] in ("data", "arg", "field"):
                    if not (b[0] == "data" and b[1][0] == "p" and b[1][1][0] == "new"):
                        k = (self.names.base(it, b),)
                        self.obl("P01", k, False, "'%s' is written although the status was "
                                 "already in error on entry" % k[0], self.repo_at(i))

    def strided(self, i, kind):
        """The address of an access is made from the strides of an array.

        Every part of the offset that varies has a stride as a factor.
        """
        c = self.__dict__.setdefault("_strided", {})
        key = (i.id, kind)
        if key not in c:
            v = i.ops[1] if i.op == "store" or (
                i.op in ("call", "invoke") and kind == "load") else i.ops[0]
            c[key] = self.parts(v, {}, True) == "S"
        return c[key]

    def parts(self, v, on, addr=False):
        """How a number is made: C constant, S multiples of strides, V otherwise.

        For an address, of its offset from the start of the array.
        """
        if not isinstance(v, int):
            return "C" if addr or not (isinstance(v, str) and v[:1] == "a" and
                                       v[1:].isdigit()) else "V"
        memo = self.__dict__.setdefault("_parts", {})
        if (v, addr) in memo:
            return memo[(v, addr)]
        if v in on:
            on[v] = True
            return "B"
        on[v] = False
        g = self.fn.inst[v]
        op, r = g.op, "V"
        if op in ("add", "sub", "or"):
            r = both(*[self.parts(o, on) for o in g.ops[:2]])
        elif op in ("mul", "and"):
            k = [self.parts(o, on) for o in g.ops[:2]]
            r = "S" if "S" in k else "V" if "V" in k or "B" in k else "C"
        elif op in ("shl", "sdiv", "udiv", "ashr", "lshr", "sext", "zext", "trunc", "freeze",
                    "bitcast", "ptrtoint", "inttoptr"):
            r = self.parts(g.ops[0], on, addr)
        elif op == "getelementptr" and isinstance(g.ex, list) and len(g.ex) == 3:
            r = self.parts(g.ops[0], on, True)
            for t in g.ex[1]:
                r = both(r, self.parts(t[0], on))
        elif op in ("phi", "select"):
            ins = g.ops if op == "phi" else g.ops[1:3]
            r = join([self.parts(o, on, addr) for o in ins])
        elif op in ("call", "invoke"):
            if isinstance(g.ex, str) and g.ex.startswith("sdp_mem_stride_"):
                r = "S"
            elif addr:
                r = "C"
        elif op == "load":
            a = g.ops[0]
            slot = self.slot(a) if isinstance(a, int) else None
            if slot is not None:
                k = [self.parts(o, on, addr) for o in self.stored_at(a)] or ["V"]
                r = "S" if "S" in k else join(k)
            elif self.of_strides(a):
                r = "S"
            elif addr:
                r = "C"
        loops = on.pop(v)
        if loops and r == "B":
            r = "V"
        if not any(on.values()):
            memo[(v, addr)] = r
        return r

    def stride_sources(self, i, kind):
        """The calls that ask for the strides that the address of an access is made from."""
        c = self.__dict__.setdefault("_sources", {})
        key = (i.id, kind)
        if key in c:
            return c[key]
        v = i.ops[1] if i.op == "store" or (
            i.op in ("call", "invoke") and kind == "load") else i.ops[0]
        seen, work, c[key] = set(), [v], []
        while work:
            v = work.pop()
            if not isinstance(v, int) or v in seen:
                continue
            seen.add(v)
            g = self.fn.inst[v]
            if g.op in ("call", "invoke"):
                if isinstance(g.ex, str) and g.ex.startswith("sdp_mem_stride_"):
                    c[key].append(g)
            elif g.op == "load":
                if isinstance(g.ops[0], int) and self.slot(g.ops[0]) is not None:
                    work += self.stored_at(g.ops[0])
            else:
                work += it_operands(g)
        return c[key]

    def of_strides(self, a):
        """An address in the table of strides that a handle points to."""
        n = 0
        while isinstance(a, int) and n < 10:
            g = self.fn.inst[a]
            if g.op == "load":
                b = g.ops[0]
                if isinstance(b, int):
                    q = self.fn.inst[b]
                    return q.op == "getelementptr" and isinstance(q.ex, list) and \
                        len(q.ex) == 3 and q.ex[2] == "%struct.sdp_Mem" and \
                        q.ex[0] == self.offs["stride"]
                return False
            if g.op not in ("getelementptr", "bitcast"):
                return False
            a = g.ops[0]
            n += 1
        return False

    def slice(self, h):
        """A view of part of another array: contiguous or not by its shape, not decided."""
        if h[0] == "p" and h[1][0] == "new":
            return self.fn.inst[h[1][1]].ex == "sdp_mem_create_wrapper_for_slice"
        return False

    @staticmethod
    def first_element(off, types):
        """An offset within element zero, which no layout moves."""
        if off == 0:
            return True
        return isinstance(off, int) and off > 0 and bool(types) and \
            all(off < SIZE[t] for t in types)

    def slot(self, v):
        n = 0
        while isinstance(v, int) and n < 20:
            g = self.fn.inst[v]
            if g.op == "alloca":
                return v
            if g.op not in ("getelementptr", "bitcast"):
                return None
            v = g.ops[0]
            n += 1
        return None

    def slots(self):
        """Values stored to each local variable that stays in memory."""
        if not hasattr(self, "_slots"):
            self._slots = {}
            for g in self.fn.inst.values():
                if g.op == "store":
                    a = self.slot(g.ops[1])
                    if a is not None:
                        self._slots.setdefault(a, []).append(g.ops[0])
        return self._slots

    def place(self, v):
        """Local variable, constant part of the offset in it, and whether there is another."""
        off, var, n = 0, False, 0
        while isinstance(v, int) and n < 20:
            g = self.fn.inst[v]
            if g.op == "alloca":
                return v, off, var
            if g.op == "getelementptr" and isinstance(g.ex, list) and len(g.ex) == 3:
                off += g.ex[0]
                var = var or bool(g.ex[1])
            elif g.op != "bitcast":
                return None
            v = g.ops[0]
            n += 1
        return None

    def stored_at(self, a):
        """Values that were stored where a load from a local variable reads."""
        if not hasattr(self, "_places"):
            self._places = {}
            for g in self.fn.inst.values():
                if g.op == "store":
                    q = self.place(g.ops[1])
                    if q is not None:
                        self._places.setdefault(q[0], []).append((q[1], q[2], g.ops[0]))
        at, off, var = self.place(a) or (None, 0, True)
        ps = self._places.get(at, [])
        if var:
            base = max([o for o, _, _ in ps if o <= off] or [0])
            return [v for o, w, v in ps if o >= base]
        low = max([o for o, w, _ in ps if w and o <= off] or [-1])
        return [v for o, w, v in ps if (o == off if not w else o == low)]

    def root(self, h):
        n = 0
        while h[0] == "p" and h[1] in self.origin and n < 8:
            h = self.origin[h[1]]
            n += 1
        return h

    def wrote(self, it, i, st, h):
        h = self.root(h)
        if h == "*":
            f = ("w", "*")
        else:
            if h[0] != "p" or h[1][0] not in ("arg", "field"):
                return
            f = ("w", h)
        self.writes.add(h)
        if f not in st.flags:
            st.flags = st.flags | {f}
        o = self.outer.get(i.block)
        if o is not None:
            self.loopw.setdefault(o, set()).add(h)

    def dom(self, it, st, attr, h):
        return it.edom(attr, h, st)

    def array_access(self, it, i, st, kind, p, ty):
        h = p[1][1]
        nm = self.names.handle(it, h)
        w = self.repo_at(i)
        if h[0] == "p" and st.res.get(h[1]) == "freed":
            self.obl("RES", ("use after release", nm), False,
                     "data of %s used after it was released" % nm, w)
        if it.nullness(h, st) is True:
            return
        s = it.status(st)
        if s is not None:
            self.obl("R1", (nm, kind), s == "Z",
                     "%s of '%s' data on a path where the status is %s" % (
                         kind, nm, {"N": "an error", "?": "not known to be success"}.get(s, s)), w)
            if s == "N":
                return
        dom = self.dom(it, st, "location", h)
        self.obl("R3", (nm,), dom is not None and dom == {0},
                 "host access to '%s' whose location is %s" % (
                     nm, "not host memory" if dom and 0 not in dom else "unchecked"), w)
        dom = self.dom(it, st, "type", h)
        if isinstance(ty, str):
            want = ELEM.get(ty, set())
            sc = it.fn.access_stride(i) if i.op in ("load", "store") else None
            if ty == "float" and sc == 8:
                want = {CF}
            if ty == "double" and sc == 16:
                want = {CD}
            if ty == "i64" or ty == "ptr":
                want = {CF, D} if ty == "i64" else set()
        elif ty[1][0] == "i":
            want = MEMSIZE.get(ty[1][1])
        else:
            want = None
        tn = ty if isinstance(ty, str) else "block"
        if want is not None:
            self.obl("R2", (nm, tn), dom is not None and dom <= want,
                     "%s access to '%s' whose element type may be %s" % (
                         tn, nm, "anything" if dom is None else
                         ",".join(TYPES.get(t, str(t)) for t in sorted(dom) if t not in want)), w)
        if not self.first_element(p[2], dom) and not self.strided(i, kind) and \
                not self.slice(h):
            dom = self.dom(it, st, "contig", h)
            self.obl("A1", (nm,), dom is not None and dom == {1},
                     "'%s' is indexed as if it were contiguous, which was not checked" % nm, w)
        if h[0] == "p" and h[1][0] == "arg" and not self.first_element(p[2], dom):
            src = {it.handle(it.val(g.ops[0], st)) for g in self.stride_sources(i, kind)}
            if src:
                self.obl("A1", (nm, "strides"), h in src or any(
                    x[0] != "p" or x[1][0] != "arg" for x in src),
                    "'%s' is indexed with the strides of another array" % nm, w)
        if kind == "store":
            dom = self.dom(it, st, "ro", h)
            self.obl("R4", (nm,), dom is not None and dom == {0},
                     "write to '%s', which was not checked to be writeable" % nm, w)
            self.wrote(it, i, st, h)
            if h[0] == "p" and h[1][0] == "arg" and \
                    self.fn.args[h[1][1]]["dbg"].startswith("*c:"):
                self.obl("R5", (nm,), False, "write to the input-only array '%s'" % nm, w)

    def device_use(self, it, i, st, name, h):
        """An array handed to device code."""
        if h[0] != "p" or h[1][0] != "arg" or st.facts.get(("null", ("data", h))) is True:
            return
        self.in_order(it, i, st, h)
        if name == "sdp_mem_gpu_buffer" and it.nullness(h, st) is not True and \
                it.status(st) != "N":
            nm = self.names.handle(it, h)
            dom = self.dom(it, st, "ro", h)
            self.obl("R4", (nm,), dom is not None and dom == {0},
                     "'%s' is given to device code to write, and was not checked to be "
                     "writeable" % nm, self.repo_at(i))

    def in_order(self, it, i, st, h):
        """A callee goes through the array in memory order."""
        if it.nullness(h, st) is True:
            return
        s = it.status(st)
        if s == "N":
            return
        if self.slice(h):
            return
        nm = self.names.handle(it, h)
        dom = self.dom(it, st, "contig", h)
        self.obl("A1", (nm,), dom is not None and dom == {1},
                 "'%s' is indexed as if it were contiguous, which was not checked" % nm,
                 self.repo_at(i))

    # -- status ------------------------------------------------------------------
    def on_store(self, it, i, st, p, v):
        c = it.status_cell(p)
        sa = self.fn.status_arg
        if c is not None and sa is not None and c[1] == ("arg", sa):
            s = it.status(st)
            w = self.repo_at(i)
            k = (self.repo_fn(i),)
            if v == ("i", 0):
                self.obl("E2", ("cleared",) + k, s == "Z",
                         "the error status is set back to success", w)
            else:
                self.obl("E2b", ("overwritten",) + k, s != "N",
                         "an earlier error code is overwritten", w)
        self.plan_store(it, i, st, p, v)
        # stores that let a resource escape (elements of arrays: see checks/containers.py)
        g = it.fn.inst.get(i.ops[1]) if i.op == "store" and isinstance(i.ops[1], int) else None
        element = g is not None and g.op == "getelementptr" and isinstance(g.ex, list) and \
            len(g.ex) == 3 and bool(g.ex[1])
        for x in bases(v) if v[0] in ("p", "sel") else ():
            r = x[1]
            if r in st.res and (element or p[0] != "p" or p[1][0] in ("top", "data", "glob") or p[2] is None):
                st.res[r] = "escaped"

    def plan_store(self, it, i, st, p, v):
        """A field that owns something is not overwritten before it is released."""
        if p[0] != "p" or not isinstance(p[2], int) or p[1][0] != "arg" or i.op != "store" \
                or i.ex != "ptr":
            return
        t = it.ptr_struct(p[1])
        rel = release_function(self.prog, t) if t and t != "sdp_Mem" else None
        if rel is None or p[2] not in released_fields(self.prog, rel):
            return
        b = ("field", p[1], p[2])
        if ("d", b) in st.flags:
            st.flags = st.flags - {("d", b)}
        elif ("cell", p[1], p[2]) not in st.cells:
            f = "%s.%s" % (t, self.names.off(t, p[2]))
            # the field, or one that is filled together with it, is still empty
            free = any(st.facts.get(("null", ("field", p[1], o))) is True
                       for o in released_fields(self.prog, rel) if isinstance(o, int))
            self.obl("S9", ("overwritten", f), free,
                     "%s is overwritten while it may still hold something" % f, self.repo_at(i))

    def on_call(self, it, i, st, name, vals):
        if name and RELEASE.match(name) and vals:
            for x in bases(vals[0]):
                b = x[1]
                if b[0] in ("new", "heap") and st.facts.get(("null", b)) is True:
                    it.forget(st, b)
                    if b not in st.res:
                        st.res[b] = "freed"
                        continue
                if b in st.res:
                    if st.res[b] == "freed":
                        self.obl("RES", ("double release", self.names.base(it, b)), False,
                                 "%s released twice" % self.names.base(it, b), self.repo_at(i))
                    elif st.res[b] == "live":
                        if vals[0][0] == "sel":
                            st.res[b] = "escaped"
                        else:
                            st.res[b] = "freed"
                        self.free_contents(it, i, st, name, b)
                        if b[0] in ("new", "heap"):
                            it.forget(st, b)
                elif b[0] == "field" and b[1][0] == "arg":
                    st.flags = st.flags | {("f", b), ("d", b)}
                elif b[0] == "arg":
                    st.flags = st.flags | {("f", b)}
        elif name:
            for v in vals:
                for x in bases(v) if v[0] in ("p", "sel") else ():
                    if st.res.get(x[1]) == "freed":
                        self.obl("RES", ("use after release", self.names.base(it, x[1])), False,
                                 "%s passed to %s after it was released" % (
                                     self.names.base(it, x[1]), name), self.repo_at(i))
        if name:
            fn = self.prog.funcs.get(name)
            sa = self.fn.status_arg
            if fn is not None and fn.status_arg is not None and fn.status_arg < len(vals):
                c = it.status_cell(vals[fn.status_arg])
                self.calls = getattr(self, "calls", 0) + 1
                self.obl("E3", (name,), c is not None and c[1][0] in ("arg", "alloca"),
                         "error status passed to %s is not tracked" % name, self.repo_at(i))
                if c is not None and c[1][0] == "alloca":
                    self.stcells[c] = (name, self.repo_at(i))
                if self.entry == "Z" and fn is not self.fn:
                    ok = c is None or st.cells.get(c) != ("nz",)
                    if ok:
                        for k in effects(self.prog, fn):
                            if k == "*":
                                self.wrote(it, i, st, "*")
                            elif k < len(vals):
                                self.wrote(it, i, st, it.handle(vals[k]))
            if name == LAUNCH:
                self.wrote(it, i, st, "*")
            m = TRANSFORM.match(name)
            if m and len(vals) > 6:
                for k, kind in ((5, "load"), (6, "store")):
                    for x in bases(vals[k]) if vals[k][0] in ("p", "sel") else ():
                        if x[1][0] == "data":
                            self.array_access(it, i, st, kind, (x[0], x[1], 0),
                                              "c" + m.group(1))
            if name in ("sdp_mem_gpu_buffer", "sdp_mem_gpu_buffer_const"):
                self.device_use(it, i, st, name, it.handle(vals[0]))
            if name in MEMORY_ORDER and self.fn.name not in MEMORY_ORDER:
                for k in MEMORY_ORDER[name]:
                    self.in_order(it, i, st, it.handle(vals[k]))
        return None

    def free_contents(self, it, i, st, name, b):
        """Releasing a container releases what its own release function frees."""
        fn = self.prog.funcs.get(name)
        if fn is None:
            return
        offs = released_fields(self.prog, fn)
        for k, v in st.cells.items():
            if k[1] == b and k[2] in offs:
                for x in bases(v) if v[0] in ("p", "sel") else ():
                    if st.res.get(x[1]) == "live":
                        st.res[x[1]] = "freed"

    def on_new(self, it, i, s, name, vals, nv):
        if name == "realloc" and vals:
            for x in bases(vals[0]):
                if s.res.get(x[1]) == "live":
                    s.res[x[1]] = "freed"
        if nv[0] == "heap" or True:
            inrepo = SRC in (self.fn.where(i.loc)[0] or "")
            if inrepo:
                if s.res.get(nv) == "live":
                    held = any(self.holds(v, nv) for k, v in s.cells.items())
                    if not held:
                        self.obl("RES", ("recreated", self.names.base(it, nv)), False,
                                 "%s created again while the previous one is still held" %
                                 self.names.base(it, nv), self.repo_at(i))
                s.res[nv] = "live"
                self.inst.setdefault("RES", {})[("made", self.names.base(it, nv), i.id)] = \
                    self.repo_at(i)
        if name in ("sdp_mem_create_alias", "sdp_mem_ref_inc", "sdp_mem_create_wrapper_for_slice"):
            self.origin[nv] = it.handle(vals[0])
        elif name == "sdp_mem_create_wrapper":
            for x in bases(vals[0]):
                if x[1][0] == "data":
                    self.origin[nv] = x[1][1]

    @staticmethod
    def holds(v, b):
        return any(x[1] == b for x in bases(v)) if v[0] in ("p", "sel") else v == b

    def on_exit(self, it, i, st, rv):
        s = it.status(st)
        if s is not None:
            if self.entry == "N":
                self.obl("P01", ("status",), s == "N",
                         "the status changes although it was in error on entry", self.at(i))
            self.obl("E0", ("exit",), s in "ZN", "status unknown at exit", self.at(i))
        if self.entry == "Z" and (s == "Z" or (s is None and rv != ("i", 0))):
            for c, v in st.cells.items():
                if c in self.stcells and v == ("nz",):
                    n, w = self.stcells[c]
                    self.obl("E3d", (n,), False, "the error reported by %s is dropped" % n, w)
        # resources
        esc = set()
        work = []
        if rv is not None:
            work += [x[1] for x in bases(rv)] if rv[0] in ("p", "sel") else [rv]
        for k, v in st.cells.items():
            if k[1][0] in ("arg", "field", "glob"):
                work += [x[1] for x in bases(v)] if v[0] in ("p", "sel") else []
        while work:
            b = work.pop()
            if b in esc:
                continue
            esc.add(b)
            for k, v in st.cells.items():
                if k[1] == b:
                    work += [x[1] for x in bases(v)] if v[0] in ("p", "sel") else []
        for r, v in st.res.items():
            if v == "live" and r not in esc and st.facts.get(("null", r)) is not True:
                self.obl("RES", ("leak", self.names.base(it, r)), False,
                         "%s is not released on a path that returns with status %s" % (
                             self.names.base(it, r),
                             {"Z": "success", "N": "error"}.get(s, "unknown")),
                         self.repo_at(it.fn.inst[r[1]]))
            if v == "freed" and r in esc and not (rv is not None and False):
                self.obl("RES", ("dangling", self.names.base(it, r)), False,
                         "%s is released but still referenced on return" %
                         self.names.base(it, r), self.repo_at(it.fn.inst[r[1]]))
        if self.entry == "Z":
            self.ownership(it, st, rv, esc)
        if self.entry == "Z" and s in ("Z", "?", None):
            self.exit_rows.append((i, dict((k, v) for k, v in st.facts.items()),
                                   st.flags, rv))
        if self.entry == "Z" and s == "Z" and rv is not None and self.fn.public and \
                "create" in self.fn.name and self.fn.ret == "ptr":
            xs = rv[1] if rv[0] == "sel" else [rv]
            none = any(x == ("i", 0) or (x[0] == "p" and st.facts.get(("null", x[1])) is True)
                       for x in xs)
            self.obl("E1", ("object",), not none,
                     "returns success without the object that it is to make", self.at(i))
        self.on_exit_extra(it, i, st, rv, s)

    def ownership(self, it, st, rv, esc):
        """What plans hold on return is what their release function gives back."""
        for f in st.flags:
            if f[0] == "d" and ("f", f[1][1]) not in st.flags:
                self.obl("S9", ("dangling", self.names.base(it, f[1])), False,
                         "%s is released but still held on return" %
                         self.names.base(it, f[1]), "")
        for k, v in st.cells.items():
            if not isinstance(k[2], int) or v[0] not in ("p", "sel"):
                continue
            b = k[1]
            if b[0] in ("new", "heap"):
                if b not in esc or st.res.get(b) != "live":
                    continue
            elif b[0] not in ("arg", "field"):
                continue
            t = it.ptr_struct(b)
            if t is None and rv is not None and any(x[1] == b for x in bases(rv)) and \
                    self.fn.rdbg[:2] == "*:":
                t = self.fn.rdbg[2:]
            if t is None or t == "sdp_Mem":
                continue
            rel = release_function(self.prog, t)
            if rel is None:
                continue
            gives = released_fields(self.prog, rel)
            for x in bases(v):
                mine = st.res.get(x[1]) == "live"
                f = "%s.%s" % (t, self.names.off(t, k[2]))
                if mine:
                    w = self.repo_at(it.fn.inst[x[1][1]])
                    self.obl("S9", ("owned", f), k[2] in gives,
                             "%s is kept in %s, which %s does not release" % (
                                 self.names.base(it, x[1]), f, rel.name), w)
                elif k[2] in gives and x[1][0] == "arg" and b[0] in ("new", "heap"):
                    self.obl("S9", ("borrowed", f), False,
                             "%s refers to the caller's '%s', but %s releases it" % (
                                 f, self.names.base(it, x[1]), rel.name), "")

    def on_exit_extra(self, it, i, st, rv, s):
        pass

    def finish(self, it):
        """Rules over the set of all exits."""
        rows = []
        for i, facts, flags, rv in self.exit_rows:
            w = {f[1] for f in flags if f[0] == "w"}
            for f in flags:
                if f[0] == "L":
                    w |= self.loopw.get(f[1], set())
            rows.append((i, facts, w))
        outs = set().union(*[w for _, _, w in rows]) - {"*"} if rows else set()
        for h in outs:
            nm = self.names.handle(it, h)
            for i, facts, w in rows:
                ok = h in w or "*" in w or facts.get(("null", h[1])) is True or \
                    facts.get(("null", ("data", h))) is True or \
                    nothing_to_do(facts) or self.absent(facts)
                self.obl("E1", (nm,), ok,
                         "returns success on a path that never writes the output '%s' %s" % (
                             nm, describe(self, it, facts)), self.at(i))
        if not outs and any("*" in w for _, _, w in rows):
            for i, facts, w in rows:
                self.obl("E1", ("launch",), "*" in w,
                         "returns success without doing its work", self.at(i))


    def absent(self, facts):
        """The plan, an array's storage, or a documented optional source is null."""
        for k, v in facts.items():
            if k[0] != "null" or v is not True:
                continue
            b = k[1]
            if b[0] == "data":
                return True
            if b[0] == "arg":
                d = self.fn.args[b[1]]["dbg"].split(":")[-1]
                if d in self.prog.structs and d != "sdp_Mem":
                    return True
                if (self.fn.dname, b[1]) in OPTIONAL:
                    return True
        return False


# Arguments whose absence is documented to make the call do nothing.
OPTIONAL = {("sdp_mem_copy_contents", 1), ("sdp_mem_copy_contents_async", 1),
            ("sdp_fft_exec", 1)}


def nothing_to_do(facts):
    """The path is one on which some count or extent is known to be zero."""
    for k, v in facts.items():
        if k[0] == "rng" and v[1] is not None and v[1] <= 0:
            return True
        if k[0] == "atom" and k[1] == "numel" and v == frozenset((0,)):
            return True
    return False


def describe(r, it, facts):
    out = []
    for k, v in facts.items():
        if k[0] == "atom" and isinstance(v, frozenset) and k[1] in ("type", "location") and len(v) < 7:
            nm = r.names.handle(it, k[2])
            if k[1] == "type":
                out.append("%s is %s" % (nm, "/".join(TYPES.get(t, str(t)) for t in sorted(v))))
            else:
                out.append("%s in %s" % (nm, "/".join(["host", "device"][t] for t in sorted(v))))
    return "(%s)" % "; ".join(out[:6]) if out else ""


def released_fields(prog, fn):
    """Offsets of the fields of its argument that a function always releases."""
    cache = prog.__dict__.setdefault("_released", {})
    if fn.name not in cache:
        cache[fn.name] = frozenset()
        r = Rules(prog, fn, "Z")
        it = absint.Interp(prog, fn, hooks=r)
        it.run()
        rows = [(st, {f[1] for f in st.flags if f[0] == "f"}) for st, _ in it.exits
                if st.facts.get(("null", ("arg", 0))) is not True]
        offs = {b[2] for _, fl in rows for b in fl if b[0] == "field" and b[1] == ("arg", 0)}
        cache[fn.name] = frozenset(
            o for o in offs if all(("field", ("arg", 0), o) in fl or st.facts.get(
                ("null", ("field", ("arg", 0), o))) is True for st, fl in rows))
        if rows and all(("arg", 0) in fl for _, fl in rows):
            cache[fn.name] |= {"self"}
    return cache[fn.name]


def release_function(prog, struct):
    """The public function that releases a plan of the given type."""
    for f in prog.funcs.values():
        if f.public and f.args and f.args[0]["dbg"] == "*:" + struct and \
                RELEASE.match(f.name) and len(f.args) == 1:
            return f
    return None


def effects(prog, fn):
    """Indices of the array arguments a callee may write ('*': any)."""
    cache = prog.__dict__.setdefault("_effects", {})
    if fn.name not in cache:
        cache[fn.name] = set()
        run(prog, fn, "Z")
    return cache[fn.name]


def run(prog, fn, entry):
    cache = prog.__dict__.setdefault("_runs", {})
    k = (fn.name, entry)
    if k not in cache:
        r = Rules(prog, fn, entry)
        it = absint.Interp(prog, fn, entry_status=entry, hooks=r)
        it.run()
        r.finish(it)
        cache[k] = (r.inst, r.found, it.nstates)
        if entry == "Z":
            e = set()
            for h in r.writes:
                if h == "*":
                    e.add("*")
                elif h[0] == "p" and h[1][0] == "arg":
                    e.add(h[1][1])
            prog.__dict__.setdefault("_effects", {})[fn.name] = e
            if fn.status_arg is not None:
                absint.make_summary(prog, fn, it)
    return cache[k]
