"""M01: an array handle reports what it was made with.

The functions of the handle itself (constructors, queries, checks, release) are
interpreted for each combination of attributes; the value returned, the handle
left behind, the error status and the blocks released are compared with what the
documentation says. The interpretation of the rest of the library rests on this.
"""
import common
from common import Result

import absint
import build_ir

A0 = ("arg", 0)
H = ("p", A0, 0)
DATA = ("data", H)
HAVE = {("null", A0): False, ("null", DATA): False}
NOH = {("null", A0): True}
NODATA = {("null", A0): False, ("null", DATA): True}
SIZE = {0: 0, 1: 1, 2: 4, 4: 4, 8: 8, 36: 8, 40: 16}
QUERY = {"sdp_mem_type": "type", "sdp_mem_location": "location", "sdp_mem_num_dims": "ndims",
         "sdp_mem_num_elements": "numel", "sdp_mem_is_c_contiguous": "contig",
         "sdp_mem_is_read_only": "ro"}
# What a query returns without a handle, and for a handle without data.
NULLVAL = {"sdp_mem_type": (0, None), "sdp_mem_location": (0, None),
           "sdp_mem_num_dims": (0, None), "sdp_mem_num_elements": (0, 0),
           "sdp_mem_is_c_contiguous": (0, 0), "sdp_mem_is_read_only": (1, 1),
           "sdp_mem_is_floating_point": (0, 0), "sdp_mem_is_complex": (0, 0),
           "sdp_mem_is_double": (0, 0)}
PREDS = ("sdp_mem_is_floating_point", "sdp_mem_is_complex", "sdp_mem_is_double")


class Seen(absint.Hooks):
    keep_error_facts = True

    def __init__(self, offs):
        self.offs = offs
        self.writes = []   # (base, offset, value, inst)
        self.frees = []
        self.calls = []

    def on_store(self, it, i, st, p, v):
        if p[0] == "p" and p[1][0] in ("arg", "data", "field", "new", "heap"):
            self.writes.append((p[1], p[2], v, i))

    def on_call(self, it, i, st, name, vals):
        if name in absint.HEAP_DEL:
            self.frees.append((i, vals[0] if vals else None))
            n = dict(st.res)
            k = ("freed", vals[0])
            n[k] = n.get(k, 0) + 1
            st.res = n
        if name == "sdp_mem_set_read_only" and vals[0][0] == "p" and vals[0][1][0] != "data":
            k = ("cell", vals[0][1], self.offs["is_read_only"])
            st.cells[k] = vals[1]
            self.writes.append((vals[0][1], k[2], vals[1], i))
            return [st]
        self.calls.append((name, vals, i))
        return None


class Interp(absint.Interp):
    cells = None
    subst = {}

    def val(self, v, st):
        r = absint.Interp.val(self, v, st)
        return self.subst.get(r, r) if r[0] in ("arg", "atom", "field") else r

    def load(self, i, st):
        r = absint.Interp.load(self, i, st)
        return self.subst.get(r, r)

    def atom(self, at, st):
        return self.subst.get(at, at)

    def setv(self, i, v, st):
        absint.Interp.setv(self, i, self.subst.get(v, v) if v is not None else v, st)

    def call(self, i, st):
        """Sizes and strides of a handle that is being made are those stored in it."""
        if i.ex == "sdp_mem_type_size":
            t = self.val(i.ops[0], st)
            t = t if t[0] == "i" else self.subst.get(t, t)
            if t[0] == "i" and t[1] in SIZE:
                self.setv(i, ("i", SIZE[t[1]]), st)
                return None
        tab = {"sdp_mem_stride_bytes_dim": "stride", "sdp_mem_shape_dim": "shape"}.get(i.ex) \
            if isinstance(i.ex, str) else None
        if tab:
            h, d = [self.val(o, st) for o in i.ops[:2]]
            if h[0] == "p" and d[0] == "i":
                t = st.cells.get(("cell", h[1], self.hooks.offs[tab]))
                if t is not None and t[0] == "p" and t[2] is not None:
                    v = self.load_from(("p", t[1], t[2] + 8 * d[1]), i, st)
                    self.setv(i, v, st)
                    return None
        return absint.Interp.call(self, i, st)

    def initial(self):
        st = absint.Interp.initial(self)
        for k, v in (self.cells or {}).items():
            st.cells[k] = v
        return st


class Layout(Interp):
    """Each stride that the caller gives is as in a contiguous array, or (`diff`) is not."""
    unroll = True
    diff = None

    def __init__(self, *a, **k):
        self.compared = set()
        Interp.__init__(self, *a, **k)

    def arith(self, op, a, b, i, st):
        if op == "shl" and b[0] == "i" and 0 <= b[1] < 63:
            op, b = "mul", ("i", 1 << b[1])
        if op == "mul" and b == ("i", 1):
            return a
        if op == "mul" and a == ("i", 1):
            return b
        return Interp.arith(self, op, a, b, i, st)

    def cmp_truth(self, op, a, b, st):
        if op in ("eq", "ne") and self.diff is not None:
            for x, y in ((a, b), (b, a)):
                if x[0] == "field" and x[1] == ("arg", 5) and product(y) is not None and \
                        not any("('arg', 5)" in f for f in product(y)[1]):
                    self.compared.add((x[2] // 8, y))
                    return (op == "eq") != (x[2] // 8 in self.diff)
        return Interp.cmp_truth(self, op, a, b, st)


def size(d):
    return ("field", ("arg", 4), 8 * d)


def product(v):
    """(constant, names of the other factors) of a product; None if it is not one."""
    if v is None:
        return None
    if v[0] == "i":
        return v[1], ()
    if v[0] in ("field", "arg", "atom"):
        return 1, (repr(v),)
    if v[0] == "op" and v[1] == "mul":
        a, b = product(v[2]), product(v[3])
        if a and b:
            return a[0] * b[0], tuple(sorted(a[1] + b[1]))
    return None


class Check(object):
    def __init__(self, prog, res):
        self.prog, self.res = prog, res
        self.offs = prog.mem_offsets()
        self.und = res.info.setdefault("undecided", [])

    def go(self, name, ov, cells=None, entry="Z", kind=None, diff=None):
        f = self.prog.funcs.get(name)
        if f is None or not f.blocks:
            return None, None, None
        h = Seen(self.offs)
        it = (kind or Interp)(self.prog, f, entry_status=entry, hooks=h, overrides=dict(ov))
        it.cells = cells
        it.diff = diff
        it.subst = {}
        for k, v in ov.items():
            if k[0] == "rng" and v[0] is not None and v[0] == v[1]:
                it.subst[k[1]] = ("i", v[0])
            elif k[0] == "atom" and isinstance(v, frozenset) and len(v) == 1:
                it.subst[k] = ("i", min(v))
        it.run()
        return it, h, self.loc(f)

    @staticmethod
    def loc(f):
        return "%s:%s %s" % (f.file, f.line, f.name) if hasattr(f, "file") else f.name

    def expect(self, key, it, loc, want, what):
        """Every value that the function can return is `want`."""
        if it is None:
            self.und.append(key + ": the function has no body")
            return
        bad, und = [], []
        for st, rv in it.exits:
            v = it.canon(rv, st) if rv is not None else None
            if v == want:
                continue
            if v is not None and v[0] in ("i", "atom", "arg", "field", "p"):
                bad.append(v)
            else:
                und.append(v)
        if bad:
            self.res.inst(key, loc)
            self.res.find(key, "%s: returns %s" % (what, show(bad[0])), loc)
        elif und or not it.exits:
            self.und.append("%s: the value returned is not followed" % key)
        else:
            self.res.inst(key, loc)

    def quiet(self, key, h, loc):
        """A query changes nothing."""
        if h is None:
            return
        w = [x for x in h.writes if x[0][0] in ("arg", "data", "field")]
        self.res.inst(key, loc)
        if w:
            self.res.find(key, "a query writes to the array or its handle", loc)

    # -- queries ---------------------------------------------------------------
    def queries(self):
        for n, attr in sorted(QUERY.items()):
            it, h, loc = self.go(n, HAVE)
            self.expect(n + ":value", it, loc, ("atom", attr, H), "with data")
            self.quiet(n + ":const", h, loc)
        for n, (a, b) in sorted(NULLVAL.items()):
            for ov, v, w in ((NOH, a, "no handle"), (NODATA, b, "no data")):
                if v is None:
                    continue
                it, h, loc = self.go(n, ov)
                key = "%s:%s" % (n, w)
                if n == "sdp_mem_is_read_only":
                    self.nonzero(key, it, loc)
                else:
                    self.expect(key, it, loc, ("i", v), w)
        for n in ("sdp_mem_data", "sdp_mem_data_const"):
            it, h, loc = self.go(n, HAVE)
            self.expect(n + ":value", it, loc, ("p", DATA, 0), "with data")
            it, h, loc = self.go(n, NOH)
            self.expect(n + ":no handle", it, loc, ("i", 0), "no handle")
            self.quiet(n + ":const", h, loc)

    def nonzero(self, key, it, loc):
        if it is None:
            return
        vs = [it.canon(rv, st) for st, rv in it.exits]
        if all(v[0] == "i" and v[1] for v in vs) and vs:
            self.res.inst(key, loc)
        elif any(v == ("i", 0) or v[0] in ("atom", "field") for v in vs):
            self.res.inst(key, loc)
            self.res.find(key, "an array that does not exist is reported as writeable", loc)
        else:
            self.und.append(key)

    def predicates(self):
        for n in PREDS:
            for t in sorted(absint.TYPES):
                key = "%s:%s" % (n, absint.TYPES[t])
                ov = dict(HAVE)
                ov[("atom", "type", H)] = frozenset((t,))
                it, h, loc = self.go(n, ov)
                if it is None:
                    continue
                want = absint.PRED[n](t)
                got = set()
                for st, rv in it.exits:
                    try:
                        v = rv
                        if v[0] in ("cmp", "not", "and", "or"):
                            r = it.truth(v, st)
                            if r is None:
                                r = it.fin_truth(v, {("atom", "type", H): t}, st)
                            got.add(None if r is None else int(bool(r)))
                        else:
                            r = it.fin_eval(v, {("atom", "type", H): t}, st)
                            got.add(None if r is None else int(bool(r)))
                    except (KeyError, IndexError, TypeError):
                        got.add(None)
                self.verdict(key, got, want, loc, "for %s" % absint.TYPES[t])
        n = "sdp_mem_is_complex4"
        for t in sorted(absint.TYPES):
            if absint.PRED["sdp_mem_is_complex"](t):
                continue
            ov = dict(HAVE)
            ov[("atom", "type", H)] = frozenset((t,))
            it, h, loc = self.go(n, ov)
            if it is not None:
                got = {rv[1] and 1 if rv[0] == "i" else None for st, rv in it.exits}
                self.verdict("%s:%s" % (n, absint.TYPES[t]), got, 0, loc,
                             "for %s" % absint.TYPES[t])
        n = "sdp_mem_type_size"
        for t in sorted(absint.TYPES):
            if t == 0:
                continue
            it, h, loc = self.go(n, {("rng", A0): (t, t)})
            if it is not None:
                got = {rv[1] if rv and rv[0] == "i" else None for st, rv in it.exits}
                self.verdict("%s:%s" % (n, absint.TYPES[t]), got, SIZE[t], loc,
                             "for %s" % absint.TYPES[t])

    def verdict(self, key, got, want, loc, what):
        bad = [g for g in got if g is not None and g != want]
        if bad:
            self.res.inst(key, loc)
            self.res.find(key, "%s the result is %s, not %s" % (what, bad[0], want), loc)
        elif None in got or not got:
            self.und.append(key + ": the value is not followed")
        else:
            self.res.inst(key, loc)

    def dims(self):
        """Sizes and strides of dimensions that do not exist are zero."""
        nd = ("atom", "ndims", H)
        for n, fld in (("sdp_mem_shape_dim", "shape"), ("sdp_mem_stride_bytes_dim", "stride"),
                       ("sdp_mem_stride_elements_dim", "stride")):
            for what, ov in (("no handle", NOH),
                             ("negative", dict(HAVE, **{}) | {("rng", ("arg", 1)): (-1, -1)}),
                             ("too large", dict(HAVE) | {("rng", ("arg", 1)): (3, 3),
                                                         ("rng", nd): (3, 3)})):
                it, h, loc = self.go(n, ov)
                if it is None:
                    continue
                key = "%s:%s" % (n, what)
                got = {rv[1] if rv and rv[0] == "i" else "read from memory"
                       if rv and rv[0] in ("field", "p", "atom") else None
                       for st, rv in it.exits}
                self.verdict(key, got, 0, loc, what)
            # a dimension that exists: the entry of that number in the right table
            it, h, loc = self.go(n, dict(HAVE) | {("rng", ("arg", 1)): (1, 1),
                                                  ("rng", nd): (3, 3)})
            if it is None or n == "sdp_mem_stride_elements_dim":
                continue
            key = n + ":exists"
            want = ("field", ("field", A0, self.offs[fld]), 8)
            got = set()
            for st, rv in it.exits:
                v = it.canon(rv, st)
                got.add(v if v[0] in ("i", "field", "atom") else None)
            bad = [g for g in got if g is not None and g != want and
                   not (g[0] == "atom" and g[1] == {"shape": "shape1",
                                                    "stride": "strideB1"}[fld])]
            if bad:
                self.res.inst(key, loc)
                self.res.find(key, "dimension 1 of 3 gives %s" % show(bad[0]), loc)
            elif None in got:
                self.und.append(key + ": the value is not followed")
            else:
                self.res.inst(key, loc)

    def buffers(self):
        for n in ("sdp_mem_gpu_buffer", "sdp_mem_gpu_buffer_const"):
            for t in sorted(absint.TYPES):
                for loc_ in (0, 1):
                    ov = dict(HAVE)
                    ov[("atom", "type", H)] = frozenset((t,))
                    ov[("atom", "location", H)] = frozenset((loc_,))
                    it, h, loc = self.go(n, ov)
                    if it is None:
                        continue
                    ok = loc_ == 1 or t == 0
                    key = "%s:%s:%s" % (n, absint.TYPES[t], ("host", "device")[loc_])
                    self.status(key, it, loc, ok)
                    if ok:
                        self.expect(key + ":value", it, loc, ("p", A0, self.offs["data"]), key)

    def status(self, key, it, loc, ok):
        got = {it.status(st) for st, rv in it.exits}
        if not got or None in got or "?" in got or got == {"Z", "N"}:
            self.und.append("%s: status %s" % (key, sorted(map(str, got))))
            return
        self.res.inst(key, loc)
        if ok and got != {"Z"}:
            self.res.find(key, "a valid array is refused", loc)
        if not ok and got != {"N"}:
            self.res.find(key, "an array that does not qualify is accepted", loc)

    def checks(self):
        """The checking functions accept exactly what their name says."""
        def run(n, what, ov, ok):
            it, h, loc = self.go(n, ov)
            if it is None:
                self.und.append(n + ": not found")
                return
            self.status("%s:%s" % (n, what), it, loc, ok)
            self.quiet(n + ":const", _only(h, it), loc)
        for t in sorted(absint.TYPES):
            for e in sorted(absint.TYPES):
                run("sdp_mem_check_type_at", "%s=%s" % (absint.TYPES[t], absint.TYPES[e]),
                    dict(HAVE) | {("atom", "type", H): frozenset((t,)),
                                  ("rng", ("arg", 1)): (e, e)}, t == e)
        for t in (0, 1):
            for e in (0, 1):
                run("sdp_mem_check_location_at", "%d=%d" % (t, e),
                    dict(HAVE) | {("atom", "location", H): frozenset((t,)),
                                  ("rng", ("arg", 1)): (e, e)}, t == e)
        for t in (0, 1, 2, 3):
            for e in (0, 1, 2, 3):
                run("sdp_mem_check_num_dims_at", "%d=%d" % (t, e),
                    dict(HAVE) | {("rng", ("atom", "ndims", H)): (t, t),
                                  ("rng", ("arg", 1)): (e, e)}, t == e)
        for v in (0, 1):
            run("sdp_mem_check_writeable_at", "read-only=%d" % v,
                dict(HAVE) | {("atom", "ro", H): frozenset((v,))}, not v)
            run("sdp_mem_check_c_contiguity_at", "contiguous=%d" % v,
                dict(HAVE) | {("atom", "contig", H): frozenset((v,))}, bool(v))

        # sizes: the size found and the size wanted are the same, or are not
        d1, d2, w2 = ("arg", 1), ("arg", 2), ("arg", 3)
        H2 = ("p", d2, 0)
        nd = {("rng", ("atom", "ndims", H)): (3, 3)}
        s1 = ("atom", "shape1", H)
        for n, ov, a, b in (
                ("sdp_mem_check_dim_size_at", dict(nd) | {("rng", d1): (1, 1)}, s1, d2),
                ("sdp_mem_check_shape_dim_at", dict(nd) | {("rng", d1): (1, 1)}, s1, d2),
                ("sdp_mem_check_same_shape_at", dict(nd) | {
                    ("rng", d1): (1, 1), ("rng", w2): (0, 0),
                    ("rng", ("atom", "ndims", H2)): (2, 2), ("null", d2): False}, s1,
                 ("atom", "shape0", H2))):
            for same in (True, False):
                o = dict(HAVE) | ov | {("cond", "eq", a, b): same, ("cond", "eq", b, a): same}
                run(n, "same" if same else "different", o, same)
        run("sdp_mem_check_shape_dim_at", "no such dimension",
            dict(HAVE) | {("rng", ("atom", "ndims", H)): (3, 3), ("rng", d1): (3, 3)}, False)
        run("sdp_mem_check_shape_at", "other number of dimensions",
            dict(HAVE) | {("rng", ("atom", "ndims", H)): (3, 3), ("rng", d1): (2, 2)}, False)
        n, M2 = "sdp_mem_is_matching", ("p", ("arg", 1), 0)
        base = dict(HAVE) | {("null", ("arg", 1)): False}

        def pair(attr, x, y, kind):
            if kind == "atom":
                return {("atom", attr, H): frozenset((x,)), ("atom", attr, M2): frozenset((y,))}
            return {("rng", ("atom", attr, H)): (x, x), ("rng", ("atom", attr, M2)): (y, y)}
        same = dict(pair("type", 4, 4, "atom")) | pair("location", 0, 0, "atom") | \
            pair("ndims", 0, 0, "rng")
        cases = [("scalars", same, 1, 1)]
        for t in sorted(absint.TYPES):
            for e in sorted(absint.TYPES):
                if t != e:
                    cases.append(("%s/%s" % (absint.TYPES[t], absint.TYPES[e]),
                                  same | pair("type", t, e, "atom"), 1, 0))
        for loc_ in (0, 1):
            for flag in (0, 1):
                cases.append(("location %d/%d flag %d" % (loc_, 1 - loc_, flag),
                              same | pair("location", loc_, 1 - loc_, "atom"), flag,
                              int(not flag)))
        cases.append(("dimensions", same | pair("ndims", 1, 2, "rng"), 0, 0))
        for what, ov, flag, want in cases:
            it, h, loc = self.go(n, base | ov | {("rng", d2): (flag, flag)})
            if it is None:
                break
            got = {rv[1] and 1 if rv and rv[0] == "i" else None for st, rv in it.exits}
            self.verdict("%s:%s" % (n, what), got, want, loc, what)

    # -- construction ------------------------------------------------------------
    def build(self):
        o = self.offs
        n = "sdp_mem_create_wrapper"
        it, h, loc = self.go(n, {("null", A0): False})
        if it is not None:
            want = {"data": ("p", A0, 0), "ref_count": ("i", 1), "type": ("arg", 1),
                    "location": ("arg", 2), "num_dims": ("arg", 3)}
            zero = ("is_owner", "is_read_only")
            base = [(st, rv[1]) for st, rv in it.exits if rv and rv[0] == "p" and
                    rv[1][0] in ("heap", "new")]
            for fld, v in sorted(want.items()):
                self.field(n, it, base, fld, o[fld], v, loc)
            for fld in zero:
                self.field(n, it, base, fld, o[fld], ("i", 0), loc, absent=True)
            if len(base) != len(it.exits):
                self.und.append(n + ": what it returns is not followed")
            # strides given by the caller can make the array not contiguous
            nd = {("rng", ("arg", 3)): (2, 2), ("rng", ("arg", 1)): (4, 4)}
            it, h, loc = self.go(n, dict(nd) | {("null", ("arg", 5)): False})
            vals = {st.cells.get(("cell", rv[1], o["is_c_contiguous"])) for st, rv in it.exits
                    if rv and rv[0] == "p" and it.status(st) == "Z"}
            key = n + ":contiguity"
            if None in vals or any(v is not None and v[0] != "i" for v in vals):
                self.und.append(key)
            else:
                self.res.inst(key, loc)
                if not any(v == ("i", 0) for v in vals):
                    self.res.find(key, "an array with any strides is taken as contiguous", loc)
                if not any(v[1] for v in vals):
                    self.res.find(key, "no array is taken as contiguous", loc)
            self.layout(n)
        self.owner()
        self.derived()
        it, h, loc = self.go("sdp_mem_set_read_only", HAVE)
        if it is not None:
            self.field("sdp_mem_set_read_only", it, [(st, A0) for st, rv in it.exits],
                       "is_read_only", o["is_read_only"], ("arg", 1), loc)
        it, h, loc = self.go("sdp_mem_ref_inc", HAVE)
        if it is not None:
            self.expect("sdp_mem_ref_inc:value", it, loc, H, "with a handle")
        it, h, loc = self.go("sdp_mem_ref_inc", HAVE,
                             {("cell", A0, o["ref_count"]): ("i", 7)})
        if it is not None:
            self.field("sdp_mem_ref_inc", it, [(st, A0) for st, rv in it.exits],
                       "ref_count", o["ref_count"], ("i", 8), loc)

    def layout(self, n):
        """Every dimension decides whether an array is contiguous, by comparing its stride with
        the size of an element times the sizes of the dimensions inside it."""
        o = self.offs
        for nd in (1, 2, 3):
            base = {("rng", ("arg", 3)): (nd, nd), ("rng", ("arg", 1)): (40, 40),
                    ("null", ("arg", 4)): False}
            for diff in [None] + [frozenset(x for x in range(nd) if m >> x & 1)
                                  for m in range(1 << nd)]:
                ov = dict(base)
                ov[("null", ("arg", 5))] = diff is None
                it, h, loc = self.go(n, ov, kind=Layout, diff=diff)
                what = "default" if diff is None else "differs in %s" % (
                    ",".join(map(str, sorted(diff))) or "none")
                key = "%s:layout:%dD:%s" % (n, nd, what)
                exits = [(st, rv[1]) for st, rv in it.exits
                         if rv and rv[0] == "p" and it.status(st) == "Z"]
                got, num = set(), set()
                for st, b in exits:
                    v = st.cells.get(("cell", b, o["is_c_contiguous"]))
                    got.add(int(bool(v[1])) if v and v[0] == "i" else None)
                    num.add(product(st.cells.get(("cell", b, o["num_elements"]))))
                self.verdict(key, got, int(not diff), loc, "array of %d dimensions, stride %s: "
                             "contiguous" % (nd, what))
                want = (1, tuple(sorted(repr(size(d)) for d in range(nd))))
                self.products(key + ":elements", num, want, loc, "the number of elements")
                for d in range(nd):
                    want = (SIZE[40], tuple(sorted(repr(size(e)) for e in range(d + 1, nd))))
                    if diff is None:
                        vals = set()
                        for st, b in exits:
                            t = st.cells.get(("cell", b, o["stride"]))
                            if t and t[0] == "p" and t[2] is not None:
                                t = st.cells.get(("cell", t[1], t[2] + 8 * d))
                                vals.add(product(t))
                        self.products("%s:stride%d" % (key, d), vals, want, loc,
                                      "the stride of dimension %d" % d)
                    elif diff == frozenset():
                        self.products("%s:compared%d" % (key, d),
                                      {product(v) for k, v in it.compared if k == d}, want, loc,
                                      "what stride %d is compared with" % d)

    def products(self, key, got, want, loc, what):
        bad = [g for g in got if g is not None and g != want]
        if bad:
            self.res.inst(key, loc)
            self.res.find(key, "%s is not the product of the sizes %s" % (
                what, "inside it and the size of an element" if want[0] != 1 else ""), loc)
        elif None in got or not got:
            self.und.append(key)
        else:
            self.res.inst(key, loc)

    def field(self, n, it, base, fld, off, want, loc, absent=False):
        key = "%s:%s" % (n, fld)
        if not base:
            self.und.append(key + ": no handle is returned")
            return
        und = None
        for st, b in base:
            v = st.cells.get(("cell", b, off))
            if v is None and absent:
                continue
            if v is None:
                und = "not followed"
                # a block of zeros with nothing stored in this field
                if b[0] == "heap" and not any(w[0] == b and w[1] in (off, None)
                                              for w in it.hooks.writes):
                    self.res.inst(key, loc)
                    self.res.find(key, "%s is never set" % fld, loc)
                    return
                continue
            v = it.canon(v, st)
            if v[0] in ("cmp", "not", "and", "or"):
                t = it.truth(v, st)
                v = v if t is None else ("i", int(t))
            if v == want or (want[0] == "i" and it.cmp_truth("eq", v, want, st) is True):
                continue
            if v[0] == "atom" and want[0] == "atom":
                bad = v != want
            else:
                bad = v[0] in ("i", "arg", "atom", "p", "field") or v[0] == "op"
            if bad and it.cmp_truth("eq", v, want, st) is not True:
                self.res.inst(key, loc)
                self.res.find(key, "%s is %s, not %s" % (fld, show(v), show(want)), loc)
                return
            und = show(v)
        if und:
            self.und.append("%s: %s" % (key, und))
        else:
            self.res.inst(key, loc)

    def owner(self):
        """Only memory that the library allocated is marked as owned."""
        o = self.offs
        for f in self.prog.funcs.values():
            if not f.blocks or not any(a.get("dbg", "").endswith(":sdp_Mem") for a in f.args
                                       if isinstance(a, dict)) and not f.rdbg.endswith(
                                           ":sdp_Mem"):
                continue
            if not f.name.startswith("sdp_mem") and "sdp_mem" not in f.name:
                continue
            own = False
            h = Seen(o)
            it = Interp(self.prog, f, hooks=h)
            try:
                it.run()
            except absint.Incomplete:
                continue
            for b, off, v, i in h.writes:
                if off == o["is_owner"] and v != ("i", 0) and self.handle_base(f, b):
                    own = True
            if not own:
                continue
            key = "%s:owner" % f.name
            self.res.inst(key, self.loc(f))
            alloc = any(c[0] in absint.HEAP_NEW or c[0] in ("cudaMalloc",) or
                        self.allocates(c[0]) for c in h.calls)
            if not alloc:
                self.res.find(key, "memory is marked as owned where none is allocated",
                              self.loc(f))
        n = "sdp_mem_create"
        it, h, loc = self.go(n, {("rng", ("arg", 1)): (0, 0)})
        if it is None:
            return
        base = [(st, rv[1]) for st, rv in it.exits
                if rv and rv[0] == "p" and rv[1][0] == "new" and it.status(st) == "Z"]
        self.field(n, it, base, "is_owner", o["is_owner"], ("i", 1), loc)
        key = n + ":arguments"
        c = [c for c in h.calls if c[0] == "sdp_mem_create_wrapper"]
        if len({repr(x[1][:6]) for x in c}) == 1:
            v = c[0][1]
            want = [("i", 0), ("arg", 0), ("arg", 1), ("arg", 2), ("p", ("arg", 3), 0), ("i", 0)]
            self.res.inst(key, loc)
            for k, w in enumerate(want):
                if it.canon(v[k], it.exits[0][0]) != w and v[k] != w:
                    if w == ("arg", 1) and v[k] == ("i", 0):
                        continue  # the location of this case
                    self.res.find(key, "argument %d of the handle is %s, not %s" % (
                        k + 1, show(v[k]), show(w)), loc)
        else:
            self.und.append(key)

    def handle_base(self, f, b):
        if b[0] in ("new", "heap"):
            return True
        if b[0] == "arg":
            a = f.args[b[1]]
            d = a.get("dbg", "") if isinstance(a, dict) else getattr(a, "dbg", "")
            return d.endswith(":sdp_Mem")
        return False

    def allocates(self, name):
        f = self.prog.funcs.get(name) if name else None
        if f is None or not f.blocks:
            return False
        for blk in f.blocks:
            for i in blk:
                if i.op in ("call", "invoke") and i.ex in absint.HEAP_NEW:
                    return True
        return False

    def derived(self):
        """Handles made from another one take their attributes from it."""
        src = {a: ("atom", a, H) for a in ("type", "location", "ndims", "ro")}
        want = {"sdp_mem_create_alias": {0: ("p", DATA, 0), 1: src["type"], 2: src["location"],
                                         3: src["ndims"], 4: ("field", "shape"),
                                         5: ("field", "stride")},
                "sdp_mem_create_wrapper_for_slice": {1: src["type"], 2: src["location"],
                                                     3: ("arg", 2), 4: ("p", ("arg", 3), 0)},
                "sdp_mem_create_copy": {0: ("i", 0), 1: src["type"], 2: ("arg", 1),
                                        3: src["ndims"], 4: ("field", "shape")}}
        for n, args in sorted(want.items()):
            it, h, loc = self.go(n, HAVE)
            if it is None:
                continue
            calls = [c for c in h.calls if c[0] == "sdp_mem_create_wrapper"]
            st0 = it.exits[0][0] if it.exits else None
            for k, w in sorted(args.items()):
                key = "%s:arg%d" % (n, k)
                if not calls:
                    self.und.append(key)
                    continue
                if w[0] == "field":
                    w = ("p", ("field", A0, self.offs[w[1]]), 0)
                vs = {c[1][k] for c in calls}
                bad = [v for v in vs if v != w and v[0] in ("i", "atom", "arg", "p", "field")]
                if bad:
                    self.res.inst(key, loc)
                    self.res.find(key, "the new handle is given %s, not %s" % (
                        show(bad[0]), show(w)), loc)
                elif all(v == w for v in vs):
                    self.res.inst(key, loc)
                else:
                    self.und.append(key)
            if n == "sdp_mem_create_copy":
                self.copied(it, h, loc, n)
                continue
            for ro in (0, 1):
                self.marked(n, ro)

    def marked(self, n, ro):
        """A view is read-only exactly if the array is."""
        it, h, loc = self.go(n, dict(HAVE) | {("atom", "ro", H): frozenset((ro,))})
        off = self.offs["is_read_only"]
        got = set()
        for st, rv in it.exits:
            if not rv or rv[0] != "p" or rv[1][0] != "new":
                continue
            v = st.cells.get(("cell", rv[1], off))
            if v is None:
                lost = any(w[0] == rv[1] and w[1] is None for w in h.writes) or any(
                    x[0] == "p" and x[1] == rv[1] for c in h.calls for x in c[1])
                got.add(None if lost else 0)
            else:
                v = it.canon(v, st)
                if v[0] != "i":
                    t = it.truth(v, st)
                    v = ("i", int(t)) if t is not None else v
                got.add(bool(v[1]) if v[0] == "i" else None)
        key = "%s:is_read_only=%d" % (n, ro)
        if any(g is not None and bool(g) != bool(ro) for g in got):
            self.res.inst(key, loc)
            self.res.find(key, "a view of a read-only array is writeable" if ro else
                          "a view of a writeable array is read-only", loc)
        elif got and None not in got:
            self.res.inst(key, loc)
        else:
            self.und.append(key)

    def copied(self, it, h, loc, n):
        key = n + ":contents"
        c = [c for c in h.calls if c[0] == "sdp_mem_copy_contents"]
        if not c:
            self.und.append(key)
            return
        self.res.inst(key, loc)
        for _, v, i in c:
            if v[1] != H or v[0] == H:
                self.res.find(key, "the contents are not copied from the source", loc)
            for k in (2, 3):
                if v[k][0] == "i" and v[k][1]:
                    self.res.find(key, "the contents are copied from an offset", loc)
            if v[4] != ("atom", "numel", H) and v[4][0] in ("i", "atom", "arg", "field"):
                # known to be the number of elements on this path?
                if not (v[4] == ("i", 0)):
                    self.res.find(key, "the number of elements copied is %s" % show(v[4]), loc)

    # -- release -----------------------------------------------------------------
    def release(self):
        o = self.offs
        n = "sdp_mem_free"
        for refs in (1, 2, 3):
            for own in (0, 1):
                for data in (False, True):
                    for loc_ in (0, 1):
                        cells = {("cell", A0, o["ref_count"]): ("i", refs),
                                 ("cell", A0, o["is_owner"]): ("i", own)}
                        ov = {("null", A0): False, ("null", DATA): not data,
                              ("atom", "location", H): frozenset((loc_,)),
                              ("null", ("field", A0, o["shape"])): False,
                              ("null", ("field", A0, o["stride"])): False}
                        it, h, loc = self.go(n, ov, cells)
                        if it is None:
                            return
                        key = "%s:refs=%d:%s:%s:%s" % (
                            n, refs, "owned" if own else "borrowed",
                            "data" if data else "empty", ("host", "device")[loc_])
                        self.freed(key, it, loc, refs, own and data and loc_ == 0)
        it, h, loc = self.go(n, NOH)
        self.res.inst(n + ":no handle", loc)
        if h is not None and h.frees:
            self.res.find(n + ":no handle", "memory is released without a handle", loc)

    def freed(self, key, it, loc, refs, data):
        o = self.offs
        last = refs == 1
        want = {("p", DATA, 0): int(last and data), H: int(last),
                ("p", ("field", A0, o["shape"]), 0): int(last),
                ("p", ("field", A0, o["stride"]), 0): int(last)}
        names = {("p", DATA, 0): "the data", H: "the handle",
                 ("p", ("field", A0, o["shape"]), 0): "the sizes",
                 ("p", ("field", A0, o["stride"]), 0): "the strides"}
        calls = {c[0] for c in it.hooks.calls}
        for st, rv in it.exits:
            for p, w in want.items():
                g = st.res.get(("freed", p), 0)
                if g == w:
                    continue
                if g < w and calls - set(absint.HEAP_DEL):
                    self.und.append(key)
                    continue
                self.res.inst(key, loc)
                self.res.find(key, "%s %s released %s" % (
                    names[p], "are" if names[p].endswith("s") else "is",
                    "%d times" % g if g > 1 else "too early or although borrowed" if g
                    else "not"), loc)
            if refs > 1:
                v = st.cells.get(("cell", A0, o["ref_count"]))
                if v is not None and v[0] == "i" and v[1] != refs - 1:
                    self.res.inst(key, loc)
                    self.res.find(key, "%d references become %d" % (refs, v[1]), loc)
        self.res.inst(key, loc)


def _only(h, it):
    """Writes other than to the error status."""
    n = Seen(h.offs)
    s = it.fn.status_arg
    n.writes = [w for w in h.writes if not (s is not None and w[0] == ("arg", s))]
    return n


def show(v):
    if v is None:
        return "nothing"
    if v[0] == "i":
        return str(v[1])
    if v[0] == "atom":
        return "the %s of the array" % v[1]
    if v[0] == "arg":
        return "argument %d" % (v[1] + 1)
    if v[0] == "p":
        return "a pointer to %s" % (show(v[1]) if v[1][0] in ("arg", "field") else v[1][0])
    if v[0] == "field":
        return "the field at +%s" % v[2]
    return v[0]


def run(tier):
    res = Result("the functions of the array handle return, keep, check and release what "
                 "they are documented to")
    prog = absint.Program(build_ir.build("seq"), invariants=False)
    c = Check(prog, res)
    c.queries()
    c.predicates()
    c.dims()
    c.buffers()
    c.checks()
    c.build()
    c.release()
    res.floor("cases of handle functions decided", len(res.instances), 150)
    res.assumptions = ["calloc gives zeros", "attributes take their enumerated values"]
    return res
