"""The Python layer calls the C functions as they are declared (B01).

The C side is the compiled library (prototypes and enumerators as the
compiler sees them); the Python side is the package's syntax tree, with
constants propagated through it (pyeval). Nothing of the package is run.
"""
import ast
import json
import os
import re
import subprocess
import tempfile
from collections import Counter, defaultdict

import common
from pyeval import App, Cls, Env, Func, Interp, Obj, Raised, Sym, Unknown, canon

import build_ir

REPO = build_ir.REPO
PKG = "ska_sdp_func"
BASE = os.path.join(REPO, "src", PKG)

CT = {"c_int": ("int", 32), "c_int32": ("int", 32), "c_long": ("int", 64), "c_int64": ("int", 64),
      "c_longlong": ("int", 64), "c_ssize_t": ("int", 64), "c_size_t": ("int", 64),
      "c_uint": ("int", 32), "c_uint32": ("int", 32), "c_ulong": ("int", 64),
      "c_uint64": ("int", 64), "c_ulonglong": ("int", 64), "c_short": ("int", 16),
      "c_int16": ("int", 16), "c_uint16": ("int", 16), "c_ushort": ("int", 16),
      "c_byte": ("int", 8), "c_ubyte": ("int", 8), "c_int8": ("int", 8), "c_uint8": ("int", 8),
      "c_char": ("int", 8), "c_bool": ("int", 8), "c_float": ("fp", 32), "c_double": ("fp", 64),
      "c_longdouble": ("fp", 80)}
LT = {"i1": ("int", 8), "i8": ("int", 8), "i16": ("int", 16), "i32": ("int", 32),
      "i64": ("int", 64), "float": ("fp", 32), "double": ("fp", 64), "x86_fp80": ("fp", 80)}
CN = {"int": ("int", 32), "unsigned int": ("int", 32), "long": ("int", 64),
      "long int": ("int", 64), "unsigned long": ("int", 64), "float": ("fp", 32),
      "double": ("fp", 64), "char": ("int", 8), "size_t": ("int", 64), "int64_t": ("int", 64),
      "int32_t": ("int", 32), "short": ("int", 16), "sdp_Error": ("int", 32)}
COPIES = {"astype", "copy", "array", "ascontiguousarray", "asfortranarray", "zeros", "ones",
          "empty", "zeros_like", "ones_like", "empty_like", "full", "conj", "conjugate", "round",
          "concatenate", "stack", "tile", "repeat", "flatten", "require", "deepcopy"}


class Proto(object):
    def __init__(self, f):
        self.name = f["name"]
        self.args = [(a.get("name") or "", a["type"], a.get("dbg") or "") for a in f["args"]]
        self.ret, self.rdbg = f["ret"], f.get("rdbg") or ""
        self.status = bool(self.args) and self.args[-1][2].endswith("sdp_Error") and \
            self.args[-1][2].startswith("*")

    def struct(self, i):
        d = self.rdbg if i < 0 else self.args[i][2]
        m = re.match(r"\*c?:(\w+)$", d)
        return m.group(1) if m else None


def prototypes():
    with open(build_ir.build("seq")) as f:
        d = json.load(f)
    return {f["name"]: Proto(f) for f in d["functions"]
            if f["public"] or f["name"].startswith("sdp_")}


def enumerators():
    """Values of the memory enumerators and error codes as compiled."""
    names = ["SDP_MEM_VOID", "SDP_MEM_CHAR", "SDP_MEM_INT", "SDP_MEM_FLOAT", "SDP_MEM_DOUBLE",
             "SDP_MEM_COMPLEX_FLOAT", "SDP_MEM_COMPLEX_DOUBLE", "SDP_MEM_CPU", "SDP_MEM_GPU"]
    with open(os.path.join(REPO, "src", "ska-sdp-func", "utility", "sdp_errors.h")) as f:
        t = re.sub(r"/\*.*?\*/", " ", f.read(), flags=re.S)
        t = re.sub(r"//[^\n]*", " ", t)
    errs = sorted(set(re.findall(r"\bSDP_(?:SUCCESS|ERR_\w+)\b", t)) - {"SDP_ERRORS_H_"})
    src = '#include "ska-sdp-func/utility/sdp_mem.h"\n' \
          '#include "ska-sdp-func/utility/sdp_errors.h"\n'
    src += "".join("long long value_%s = (long long)(%s);\n" % (n, n) for n in names + errs)
    with tempfile.TemporaryDirectory(prefix="verif_enum_") as d:
        p = os.path.join(d, "e.c")
        with open(p, "w") as f:
            f.write(src)
        q = subprocess.run([os.path.join(build_ir.LLVM_BIN, "clang"), "-I",
                            os.path.join(REPO, "src"), "-S", "-emit-llvm", "-o", "-", p],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           universal_newlines=True)
        if q.returncode:
            raise common.Broken("enumerators: " + q.stderr[-500:])
    out = {m.group(1): int(m.group(2)) for m in re.finditer(
        r"@value_(\w+) = .*global i64 (-?\d+)", q.stdout)}
    if len(out) != len(names) + len(errs):
        raise common.Broken("enumerators were not all evaluated")
    return out, errs


class Package(object):
    """Every module of the package, loaded on demand by the interpreter."""

    def __init__(self):
        self.trees, self.paths = {}, {}
        for d, _, fs in os.walk(BASE):
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, os.path.dirname(BASE))[:-3].split(os.sep)
                    if rel[-1] == "__init__":
                        rel = rel[:-1]
                    m = ".".join(rel)
                    with open(p) as fh:
                        self.trees[m] = ast.parse(fh.read())
                    self.paths[m] = (p, f == "__init__.py")
        self.env = {}
        self.wraps = []
        hooks = {"def Lib.wrap_func": self.wrap, "class Lib.*": lambda n: Sym("Lib." + n)}
        self.interp = Interp(self.module, hooks)
        for m in sorted(self.trees):
            self.module(m)

    def module(self, m):
        if m not in self.trees:
            return None
        if m not in self.env:
            p, init = self.paths[m]
            e = Env(self.interp, None, {
                "__name__": m, "__package__": m if init else m.rpartition(".")[0]})
            self.env[m] = e
            cur = getattr(self, "current", None)
            self.current = m
            self.interp.body(self.trees[m].body, e, True)
            self.current = cur
        return self.env[m]

    def wrap(self, args, kw, f):
        n = getattr(self.interp, "site", None)
        names = [a.arg for a in f.node.args.args]
        a = dict(zip(names, args))
        a.update(kw)
        self.wraps.append((a, "%s:%d" % (self.rel(self.current), n.lineno if n is not None else 0)))
        return None

    def rel(self, m):
        return os.path.relpath(self.paths[m][0], REPO)


def ctype(t):
    """("int"|"fp", bits) | ("ptr", inner) | None."""
    if isinstance(t, Sym):
        n = t.name.split(".")[-1]
        if t.name.startswith("ctypes.") and n in CT:
            return CT[n]
        if n == "c_void_p":
            return ("ptr", None)
        if n in ("c_char_p",):
            return ("ptr", ("int", 8))
        if n == "py_object":
            return None
    if isinstance(t, App) and t.f == "ctypes.POINTER" and len(t.args) == 1:
        x = t.args[0]
        if isinstance(x, Cls):
            return ("ptr", x)
        if isinstance(x, Sym) and x.name == "ctypes.c_void_p":
            return ("ptr", None)
        return ("ptr", ctype(x))
    return None


def mismatch(py, ltype, dbg, votes):
    """Why a Python type does not fit a C parameter; None if it does."""
    c = ctype(py)
    if c is None:
        raise Unknown("type %r" % (py,))
    if ltype == "ptr" or dbg.startswith("*"):
        if c[0] != "ptr":
            return "a pointer is expected, %r is declared" % (py,)
        m = re.match(r"\*c?:(.+)$", dbg)
        if c[1] is None or not m:
            return None
        want = m.group(1)
        if isinstance(c[1], Cls):
            votes.append((c[1], want))
            if want in CN:
                return "a pointer to %s is expected, a handle is declared" % want
            return None
        if want in CN and isinstance(c[1], tuple) and c[1] != CN[want]:
            return "a pointer to %s is expected, %r is declared" % (want, py)
        if want.startswith("sdp_") and want not in CN and isinstance(c[1], tuple):
            return "a handle to %s is expected, %r is declared" % (want, py)
        return None
    want = LT.get(ltype)
    if want is None:
        raise Unknown("C type " + ltype)
    if c != want:
        return "%s is expected, %r is declared" % (dbg.lstrip("c:") or ltype, py)
    return None


def check_wraps(pkg, protos, res):
    """Each wrapped function against its prototype."""
    wrapped, votes, undecided = {}, [], []
    for a, loc in pkg.wraps:
        name = a.get("func_name")
        if not isinstance(name, str):
            undecided.append("%s: name of the wrapped function" % loc)
            continue
        wrapped[name] = loc
        p = protos.get(name)
        key = "wrap:%s" % name
        res.inst(key, loc)
        if p is None:
            res.find(key, "there is no C function %s" % name, loc)
            continue
        chk, types, ret = a.get("check_errcode", False), a.get("argtypes"), a.get("restype")
        if not isinstance(chk, bool) or not isinstance(types, (list, tuple)):
            undecided.append("%s: %s" % (loc, name))
            del res.instances[key]
            continue
        want = p.args[:-1] if p.status else p.args
        if p.status and not chk:
            if len(types) != len(p.args):
                res.find(key, "%s reports an error status, which is neither declared nor "
                         "checked" % name, loc)
                continue
            res.find(key, "the error status of %s is not checked" % name, loc)
            continue
        if chk and not p.status:
            res.find(key, "%s has no error status to check" % name, loc)
            continue
        if len(types) != len(want):
            res.find(key, "%s takes %d arguments, %d are declared" % (
                name, len(want), len(types)), loc)
            continue
        for i, (t, (an, lt, dbg)) in enumerate(zip(types, want)):
            k = "type:%s:%d" % (name, i)
            vs = []
            try:
                why = mismatch(t, lt, dbg, vs)
            except Unknown as e:
                undecided.append("%s: %s argument %d: %s" % (loc, name, i + 1, e))
                continue
            res.inst(k, loc)
            votes += [(c, s, k, loc, "argument %d (%s) of %s" % (i + 1, an, name))
                      for c, s in vs]
            if why:
                res.find(k, "argument %d (%s) of %s: %s" % (i + 1, an, name, why), loc)
        k = "type:%s:result" % name
        vs = []
        why = None
        try:
            if ret is None:
                if p.ret != "void":
                    why = "the result is declared as void"
            elif p.ret == "void":
                why = "there is no result, %r is declared" % (ret,)
            else:
                why = mismatch(ret, p.ret, p.rdbg, vs)
        except Unknown as e:
            undecided.append("%s: %s result: %s" % (loc, name, e))
            continue
        res.inst(k, loc)
        votes += [(c, s, k, loc, "the result of %s" % name) for c, s in vs]
        if why:
            res.find(k, "%s: %s" % (name, why), loc)
    count = defaultdict(Counter)
    for c, s, k, loc, what in votes:
        count[c][s] += 1
    struct = {c: n.most_common(1)[0][0] for c, n in count.items()}
    for c, s, k, loc, what in votes:
        if struct[c] != s:
            res.find(k, "%s is a %s, the handle declared is used for %s" % (
                what, s, struct[c]), loc)
    return wrapped, undecided, struct


# ---- call sites -----------------------------------------------------------
def lib_name(n):
    """sdp_x for the expressions Lib.sdp_x and Lib.handle().sdp_x."""
    if isinstance(n, ast.Attribute) and n.attr.startswith("sdp_"):
        t = ast.unparse(n.value)
        if t.split(".")[-1] == "Lib" or re.search(r"\bLib\.handle\(\)$", t):
            return n.attr
    return None


class Scope(object):
    """Assignments of one function and what each name is computed from."""

    def __init__(self, fn):
        self.fn = fn
        a = fn.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        self.defs = defaultdict(list)
        self.changed = {n.target.id for n in ast.walk(fn) if isinstance(n, ast.AugAssign) and
                        isinstance(n.target, ast.Name)} | {
            n.func.value.id for n in ast.walk(fn) if isinstance(n, ast.Call) and isinstance(
                n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in (
                    "append", "extend", "insert", "pop", "remove")}
        for n in ast.walk(fn):
            ts, v = [], None
            if isinstance(n, ast.Assign):
                ts, v = n.targets, n.value
            elif isinstance(n, (ast.AnnAssign, ast.AugAssign)):
                ts, v = [n.target], n.value
            elif isinstance(n, (ast.For, ast.comprehension)):
                ts, v = [n.target], n.iter
            elif isinstance(n, ast.NamedExpr):
                ts, v = [n.target], n.value
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                ts, v = [n.optional_vars], n.context_expr
            for t in ts:
                for e in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if v is not None:
                        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(
                                v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                            self.defs[ast.unparse(e)].append(
                                (n, v.elts[t.elts.index(e)]))
                        else:
                            self.defs[ast.unparse(e)].append((n, v))

    def names(self, e):
        return {ast.unparse(n) for n in ast.walk(e) if isinstance(n, (ast.Name, ast.Attribute))}

    def deps(self, e):
        seen, todo = set(), list(self.names(e))
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            for _, v in self.defs.get(n, []):
                todo += self.names(v)
        return seen

    def functions(self, e, depth=0):
        """Names of the C functions that an expression may stand for."""
        n = lib_name(e)
        if n:
            return [n]
        if isinstance(e, ast.IfExp):
            return self.functions(e.body, depth) + self.functions(e.orelse, depth)
        if isinstance(e, ast.Name) and depth < 4:
            return [x for _, v in self.defs.get(e.id, []) for x in self.functions(v, depth + 1)]
        return []

    def tuples(self, e, depth=0):
        """Argument lists that an expression may stand for."""
        if isinstance(e, (ast.Tuple, ast.List)):
            return [e.elts]
        if isinstance(e, ast.Name) and depth < 4:
            out = []
            if e.id in self.changed:
                return []
            for _, v in self.defs.get(e.id, []):
                out += self.tuples(v, depth + 1)
            return out
        return []

    def expand(self, args):
        outs = [[]]
        for a in args:
            if isinstance(a, ast.Starred):
                ts = self.tuples(a.value)
                if not ts:
                    return None
                outs = [o + list(t) for o in outs for t in ts]
            else:
                outs = [o + [a] for o in outs]
        return outs


def call_sites(pkg):
    """(module, class, function, scope, C function, argument expressions, node)."""
    for m, tree in sorted(pkg.trees.items()):
        stack = [(tree, None)]
        while stack:
            node, cls = stack.pop()
            for n in ast.iter_child_nodes(node):
                if isinstance(n, ast.ClassDef):
                    stack.append((n, n))
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    sc = Scope(n)
                    for c in ast.walk(n):
                        if not isinstance(c, ast.Call):
                            continue
                        for f in sc.functions(c.func):
                            yield m, cls, n, sc, f, sc.expand(c.args), c, None
                        if isinstance(c.func, ast.Attribute) and c.func.attr == "__init__" and \
                                isinstance(c.func.value, ast.Call) and ast.unparse(
                                    c.func.value.func) == "super":
                            a = dict(zip(("create_func", "create_args", "free_func"), c.args))
                            a.update({k.arg: k.value for k in c.keywords})
                            if "create_func" not in a or "free_func" not in a:
                                continue
                            for f in sc.functions(a["create_func"]):
                                ts = sc.tuples(a.get("create_args")) if "create_args" in a else []
                                yield (m, cls, n, sc, f,
                                       [t for t in (sc.expand(x) or [] for x in ts) for t in t]
                                       or None, c, sc.functions(a["free_func"]))
                else:
                    stack.append((n, cls))


def tokens(n):
    return frozenset(t[:-1] if t.endswith("s") and len(t) > 2 else t
                     for t in n.lower().split("_") if t)


def roles(params, cnames):
    """C parameter -> the Python parameter that stands for it, by name."""
    out = {c: c for c in cnames if c in params}
    for rel in (lambda a, b: a == b, lambda a, b: a < b or b < a):
        cs = [c for c in cnames if c not in out and c]
        ps = [p for p in params if p not in out.values()]
        pairs = [(c, p) for c in cs for p in ps if rel(tokens(c), tokens(p))]
        for c, p in pairs:
            if sum(x == c for x, _ in pairs) == 1 and sum(y == p for _, y in pairs) == 1:
                out[c] = p
    return out


def terminal(e):
    """The last name of an argument, looking through wrappers."""
    while True:
        if isinstance(e, ast.Call) and len(e.args) == 1 and not e.keywords:
            f = ast.unparse(e.func).split(".")[-1]
            if f in ("Mem", "int", "float", "bool", "byref", "encode", "SkyCoord", "c_int",
                     "c_int64", "c_double"):
                e = e.args[0]
                continue
        if isinstance(e, ast.Name):
            return e.id
        if isinstance(e, ast.Attribute):
            return e.attr.lstrip("_")
        return None


def check_calls(pkg, protos, wrapped, res):
    undecided = []
    classes = {}
    for m, cls, fn, sc, name, lists, node, free in call_sites(pkg):
        loc = "%s:%d" % (pkg.rel(m), node.lineno)
        where = "%s%s" % (cls.name + "." if cls is not None else "", fn.name)
        key = "call:%s:%s" % (where, name)
        p = protos.get(name)
        if p is None:
            res.inst(key, loc)
            res.find(key, "there is no C function %s" % name, loc)
            continue
        if name not in wrapped and "Lib.handle()" not in ast.unparse(node):
            loc2 = [v for _, v in sum(sc.defs.values(), []) if "Lib.handle()" in ast.unparse(v)]
            if not loc2:
                res.inst(key, loc)
                res.find(key, "%s is called without having been declared" % name, loc)
                continue
        if free is not None and cls is not None:
            classes[cls.name] = (name, free, loc, m)
        if lists is None:
            undecided.append("%s: arguments of %s" % (loc, name))
            continue
        want = p.args[:-1] if p.status else p.args
        cn = [a[0] for a in want]
        for args in lists:
            res.inst(key, loc)
            if len(args) != len(want):
                res.find(key, "%s passes %d arguments to %s, which takes %d" % (
                    where, len(args), name, len(want)), loc)
                continue
            index = defaultdict(list)
            pyp = [x for x in sc.params if x not in ("self", "cls")]
            role = roles(pyp, cn)
            for i, (e, (an, lt, dbg)) in enumerate(zip(args, want)):
                k = "%s:%d" % (key, i)
                res.inst(k, "%s:%d" % (pkg.rel(m), e.lineno))
                eloc = "%s:%d" % (pkg.rel(m), e.lineno)
                deps = sc.deps(e)
                t = terminal(e)
                if an in role and role[an] not in deps:
                    res.find(k, "%s passes %s as %s of %s, its own parameter %s is not used "
                             "for it" % (where, ast.unparse(e), an, name, role[an]), eloc)
                elif t is not None and t != an and t in cn and an != "" and an not in deps and \
                        (t in pyp or isinstance(strip(e), ast.Attribute)):
                    res.find(k, "%s passes %s as %s of %s, which has another parameter of that "
                             "name" % (where, ast.unparse(e), an, name), eloc)
                if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and \
                        isinstance(e.slice.value, int):
                    index[ast.unparse(e.value)].append((e.slice.value, an, k, eloc))
                is_mem = dbg.endswith(":sdp_Mem") and dbg.startswith("*")
                if is_mem and isinstance(e, ast.Call) and ast.unparse(e.func).split(".")[-1] == \
                        "Mem" and e.args:
                    x = e.args[0]
                    bad = temporary(x)
                    if bad:
                        res.find(k, "%s wraps the temporary %s for %s of %s: the memory is "
                                 "released before the call" % (
                                     where, ast.unparse(x), an, name), eloc)
                    elif dbg == "*:sdp_Mem" and isinstance(x, ast.Name) and free is None:
                        why = lost_output(fn, sc, x.id, node)
                        if why:
                            res.find(k, "%s: the output %s of %s is written to %s" % (
                                where, an, name, why), eloc)
            for base, xs in index.items():
                order = [x for x, _, _, _ in xs]
                sfx = [a[-2:] for _, a, _, _ in xs]
                if len(xs) > 1 and len(set(order)) == len(order) and all(
                        s in ("_u", "_v", "_w", "_l", "_m", "_x", "_y", "_z") for s in sfx):
                    rank = {"_u": 0, "_v": 1, "_w": 2, "_l": 0, "_m": 1, "_x": 0, "_y": 1,
                            "_z": 2}
                    if sorted(order) != [o for o, _ in sorted(
                            zip(order, sfx), key=lambda z: rank[z[1]])]:
                        res.find(xs[0][2], "%s passes elements of %s to %s in the wrong order"
                                 % (where, base, name), xs[0][3])
        # A method passes the call on to the function of its own name.
    return classes, undecided


def strip(e):
    while isinstance(e, ast.Call) and len(e.args) == 1 and not e.keywords:
        e = e.args[0]
    return e


def temporary(x):
    if isinstance(x, (ast.BinOp, ast.UnaryOp, ast.ListComp)):
        return True
    return isinstance(x, ast.Call) and ast.unparse(x.func).split(".")[-1] in COPIES


def copying(v):
    if isinstance(v, ast.IfExp):
        return copying(v.body) or copying(v.orelse)
    return temporary(v)


def lost_output(fn, sc, name, node):
    """Why what is written to a local would be lost; None if it is not."""
    if name not in sc.defs:
        return None
    ds = [(n, v) for n, v in sc.defs[name] if n.lineno < node.lineno and copying(v)]
    if not ds:
        return None
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) and \
                n.lineno > (node.end_lineno or node.lineno):
            return None
        if isinstance(n, ast.Return) and n.value is not None and n.lineno >= node.lineno and \
                name in sc.names(n.value):
            return None
    return "a copy of it that is then dropped"


def check_methods(pkg, protos, classes, res):
    """Create, release and methods of a class belong to the same C object."""
    for cname, (create, frees, loc, m) in sorted(classes.items()):
        key = "class:%s" % cname
        res.inst(key, loc)
        p = protos[create]
        s = p.struct(-1)
        for f in frees:
            q = protos.get(f)
            if q is None or len(q.args) != 1 or q.struct(0) != s or "free" not in f and \
                    "destroy" not in f:
                res.find(key, "%s creates %s with %s and releases it with %s" % (
                    cname, s, create, f), loc)
        prefix = re.sub(r"_create\w*$", "", create)
        for m2, cls, fn, sc, name, lists, node, free in call_sites(pkg):
            if cls is None or cls.name != cname or m2 != m or free is not None:
                continue
            own = "%s_%s" % (prefix, fn.name)
            calls = [x for x in ast.walk(fn) if isinstance(x, ast.Call) and sc.functions(x.func)]
            if own in protos and len(calls) == 1:
                k = "method:%s.%s" % (cname, fn.name)
                l2 = "%s:%d" % (pkg.rel(m), node.lineno)
                res.inst(k, l2)
                if name != own:
                    res.find(k, "%s.%s calls %s, not %s" % (cname, fn.name, name, own), l2)


# ---- methods wrapped by annotation ----------------------------------------
def check_auto(pkg, protos, res):
    undecided = []
    for m, tree in sorted(pkg.trees.items()):
        for cls in [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
            for fn in [n for n in cls.body if isinstance(n, ast.FunctionDef)]:
                for d in fn.decorator_list:
                    if not (isinstance(d, ast.Call) and ast.unparse(d.func) ==
                            "auto_wrap_method" and d.args):
                        continue
                    loc = "%s:%d" % (pkg.rel(m), fn.lineno)
                    opts = {k.arg: k.value for k in d.keywords}
                    try:
                        name = pkg.interp.ex(d.args[0], pkg.env[m])
                        table = pkg.env[m].get("WRAPPER_FNS")
                        status = pkg.interp.ex(opts["add_error_status"], pkg.env[m]) \
                            if "add_error_status" in opts else True
                        handle = pkg.interp.ex(opts["add_handle"], pkg.env[m]) \
                            if "add_handle" in opts else True
                        if not isinstance(table, dict) or not isinstance(name, str):
                            raise Unknown("table")
                    except (Unknown, KeyError) as e:
                        undecided.append("%s: %s" % (loc, e))
                        continue
                    key = "wrap:%s" % name
                    res.inst(key, loc)
                    p = protos.get(name)
                    if p is None:
                        res.find(key, "there is no C function %s" % name, loc)
                        continue
                    want = list(p.args)
                    if status != p.status:
                        res.find(key, "%s %s an error status" % (
                            name, "has" if p.status else "does not have"), loc)
                        continue
                    if p.status:
                        want = want[:-1]
                    if handle:
                        want = want[1:]
                    ps = (fn.args.posonlyargs + fn.args.args)[1:]
                    if len(ps) != len(want):
                        res.find(key, "%s takes %d arguments, %d are given" % (
                            name, len(want), len(ps)), loc)
                        continue
                    cn = [w[0] for w in want]
                    for i, (a, (an, lt, dbg)) in enumerate(zip(ps, want)):
                        k = "type:%s:%d" % (name, i)
                        try:
                            ann = pkg.interp.ex(a.annotation, pkg.env[m])
                            t = [v for kk, v in table.items()
                                 if repr(kk).replace("builtins.", "") ==
                                 repr(ann).replace("builtins.", "")]
                            if not t:
                                raise Unknown("annotation of %s" % a.arg)
                            why = mismatch(t[0][0], lt, dbg, [])
                        except Unknown as e:
                            undecided.append("%s: %s" % (loc, e))
                            continue
                        res.inst(k, loc)
                        if why:
                            res.find(k, "argument %s of %s: %s" % (an, name, why), loc)
                        elif a.arg != an and a.arg in cn:
                            res.find(k, "%s is passed as %s of %s" % (a.arg, an, name), loc)
    return undecided


# ---- the wrapping itself ---------------------------------------------------
DTYPES = {"int8": "CHAR", "int32": "INT", "float32": "FLOAT", "float64": "DOUBLE",
          "complex64": "COMPLEX_FLOAT", "complex128": "COMPLEX_DOUBLE"}
OTHERS = ["uint16", "int16", "uint32", "int64", "uint64", "float16", "longdouble", "object_",
          "clongdouble", "datetime64"]


class Released(Exception):
    pass


def check_mem(pkg, enums, res):
    """Mem(array) describes the array that it is given."""
    env = pkg.module(PKG + ".utility.mem")
    loc = pkg.rel(PKG + ".utility.mem") + ":0"
    try:
        mem = env.get("Mem")
    except KeyError:
        raise common.Broken("class Mem not found")
    loc = "%s:%d" % (pkg.rel(PKG + ".utility.mem"), mem.node.lineno)
    done = 0
    for lib, place in (("numpy", "CPU"), ("cupy", "GPU")):
        for dt in list(DTYPES) + OTHERS:
            key = "mem:%s.%s" % (lib, dt)
            out = {}

            def create(args, kw, f, out=out):
                a = dict(zip([x.arg for x in f.node.args.args[1:]], args))
                a.update(kw)
                out.update(a)

            sets = []
            libobj = Obj({"__getattr__": lambda n: Obj(
                call=lambda a, k, n=n: sets.append((n, a)), name=n)}, name="Lib")
            it = pkg.interp
            old = dict(it.hooks)
            it.hooks["def StructWrapper.__init__"] = create
            env.names["Lib"], keep = libobj, env.names["Lib"]
            writeable = {}
            try:
                for w in (True, False):
                    arr = Obj({"__type__": lib + ".ndarray", "dtype": Sym("%s.%s" % (lib, dt)),
                               "ndim": Sym("array.ndim"), "shape": (Sym("n0"), Sym("n1")),
                               "strides": (Sym("s0"), Sym("s1")), "data": Sym("array.data"),
                               "ctypes": Sym("array.ctypes"), "nbytes": Sym("array.nbytes"),
                               "itemsize": Sym("array.itemsize"), "size": Sym("array.size"),
                               "flags": Obj({"writeable": w})}, name="array")
                    it.steps = 0
                    del sets[:]
                    try:
                        it.call(mem, [arr], {})
                        writeable[w] = [a for n, a in sets if n == "sdp_mem_set_read_only"]
                    except Raised:
                        out.clear()
            except Unknown as e:
                res.info.setdefault("undecided", []).append("%s: %s" % (key, e))
                continue
            finally:
                it.hooks.clear()
                it.hooks.update(old)
                env.names["Lib"] = keep
            res.inst(key, loc)
            done += 1
            if dt in OTHERS:
                if out:
                    res.find(key, "an array of %s is accepted as if it were element type %r" % (
                        dt, out["create_args"][1] if len(out.get("create_args", ())) > 1
                        else "?"), loc)
                continue
            if not out:
                res.find(key, "an array of %s is refused" % dt, loc)
                continue
            a = out.get("create_args")
            if not isinstance(a, tuple) or len(a) != 6:
                res.find(key, "the array is not described by six values", loc)
                continue
            if a[1] != enums["SDP_MEM_" + DTYPES[dt]]:
                res.find(key, "an array of %s is described as element type %r" % (dt, a[1]), loc)
            elif a[2] != enums["SDP_MEM_" + place]:
                res.find(key, "a %s array is described as location %r" % (lib, a[2]), loc)
            elif not ("array.ctypes" in repr(a[0]) or "array.data" in repr(a[0])):
                res.find(key, "the data pointer is %r" % (a[0],), loc)
            elif repr(a[3]) != "array.ndim" and a[3] != 2:
                res.find(key, "the number of dimensions is %r" % (a[3],), loc)
            elif "n0" not in repr(a[4]) or "s0" in repr(a[4]) or "c_int64" not in repr(a[4]):
                res.find(key, "the shape is %r" % (a[4],), loc)
            elif "s0" not in repr(a[5]) or "n0" in repr(a[5]) or "c_int64" not in repr(a[5]):
                res.find(key, "the strides are %r" % (a[5],), loc)
            elif lib == "numpy":
                got = {w: (x[-1][1] if x and len(x[-1]) > 1 else 0)
                       for w, x in writeable.items()}
                if got.get(True, 0) not in (0, False) or got.get(False, 0) in (0, False):
                    res.find(key, "read-only is set to %r for an array that is writeable, %r "
                             "for one that is not" % (got.get(True), got.get(False)), loc)
    res.floor("element types decided", done, 24)
    for kind in ("MemType", "MemLocation"):
        c = mem.find(kind)
        if c is None or not isinstance(c[0], Cls):
            continue
        for n, v in sorted(c[0].attrs.items()):
            if not n.startswith("SDP_") or n not in enums:
                continue
            key = "enum:%s" % n
            res.inst(key, loc)
            if v != enums[n]:
                res.find(key, "%s is %r in Python and %d in C" % (n, v, enums[n]), loc)


def check_errors(pkg, enums, errs, res):
    """A non-zero code is raised, success is not, and the result is passed on."""
    m = PKG + ".utility.error_checking"
    env = pkg.module(m)
    try:
        deco = env.get("error_checking")
    except KeyError:
        raise common.Broken("error_checking not found")
    loc = "%s:%d" % (pkg.rel(m), deco.node.lineno)
    it = pkg.interp
    done = 0
    codes = sorted({enums[e] for e in errs} | {-1, 7, 100, 255})
    for code in codes:
        key = "error:%d" % code
        cells = []

        def c_int(args, kw):
            o = Obj({"value": args[0] if args else 0}, name="c_int")
            o.truth = lambda: bool(o.attrs["value"])
            cells.append(o)
            return o

        calls = []

        def func(args, kw):
            calls.append(list(args))
            a = args[-1] if args else None
            tgt = a.attrs.get("of") if isinstance(a, Obj) else None
            if tgt is None:
                raise Raised("no error code is passed last")
            if tgt.attrs["value"] == 0:
                tgt.attrs["value"] = code
            return Sym("result")

        old = dict(it.hooks)
        for n in ("c_int", "c_int32"):
            it.hooks["ctypes." + n] = c_int
        for n in ("byref", "pointer"):
            it.hooks["ctypes." + n] = lambda a, k: Obj({"of": a[0]}, name="byref")
        it.steps = 0
        why = None
        try:
            w = it.call(deco, [Obj(call=func, name="function")], {})
            try:
                r = it.call(w, [Sym("first"), Sym("second")], {})
                if code:
                    why = "error %d of a C function is not raised" % code
                elif not (isinstance(r, Sym) and r.name == "result"):
                    why = "the result of a C function is not passed on"
            except Raised as e:
                if not code:
                    why = "an exception (%s) is raised on success" % e.what
            if why is None and (len(calls) != 1 or [repr(x) for x in calls[0][:2]] !=
                                ["first", "second"] or len(calls[0]) != 3):
                why = "the arguments are not passed on once, with the error code last"
        except Unknown as e:
            res.info.setdefault("undecided", []).append("%s: %s" % (key, e))
            continue
        except Raised as e:
            why = "an exception (%s) is raised when a function is wrapped" % e.what
        finally:
            it.hooks.clear()
            it.hooks.update(old)
        done += 1
        res.inst(key, loc)
        if why:
            res.find(key, why, loc)
    res.floor("error codes decided", done, 5)
    # How a declared function is made available.
    m = PKG + ".utility.lib"
    env = pkg.module(m)
    try:
        lib = env.get("Lib")
        wf = lib.find("_wrap_func")
    except KeyError:
        wf = None
    for chk in (True, False):
        if wf is None:
            break
        key = "wrapping:%s" % ("checked" if chk else "unchecked")
        loc = "%s:%d" % (pkg.rel(m), wf[0].node.lineno)
        fn = Obj({"__name__": "sdp_f"}, name="sdp_f")
        hold = dict(lib.attrs)
        old = dict(it.hooks)
        wrapped = Obj(name="checked sdp_f")
        try:
            it.hooks.pop("def Lib.wrap_func", None)
            it.hooks["def error_checking"] = lambda a, k, f: wrapped
            lib.attrs["handle"] = Obj(call=lambda a, k: Obj({"sdp_f": fn}))
            it.steps = 0
            it.call(lib.find("wrap_func")[0], ["sdp_f"],
                    {"restype": Sym("R"), "argtypes": [Sym("A")], "check_errcode": chk})
            it.call(wf[0], ["sdp_f"], {})
            got = lib.attrs.get("sdp_f")
            ty = list(fn.attrs.get("argtypes") or [])
            res.inst(key, loc)
            if fn.attrs.get("restype") != Sym("R") or ty[:1] != [Sym("A")]:
                res.find(key, "the declared types are not applied to the function", loc)
            elif chk and got is not wrapped:
                res.find(key, "a function with an error status is made available unchecked", loc)
            elif not chk and got is not fn:
                res.find(key, "a function without an error status is not made available as "
                         "it is", loc)
        except (Unknown, Raised, KeyError, TypeError) as e:
            res.info.setdefault("undecided", []).append("%s: %s" % (key, e))
        finally:
            it.hooks.clear()
            it.hooks.update(old)
            lib.attrs.clear()
            lib.attrs.update(hold)


def check_lifetime(pkg, res):
    """A handle is released exactly once, after it was made."""
    m = PKG + ".utility.struct_wrapper"
    env = pkg.module(m)
    try:
        sw = env.get("StructWrapper")
    except (KeyError, AttributeError):
        raise common.Broken("StructWrapper not found")
    it = pkg.interp
    for null in (False, True):
        key = "handle:%s" % ("null" if null else "made")
        loc = "%s:%d" % (pkg.rel(m), sw.node.lineno)
        h = None if null else Obj(name="handle")
        made, fin = [], []
        free = Obj(call=lambda a, k: fin.append(("now", a)), name="free")
        old = dict(it.hooks)
        it.hooks["weakref.finalize"] = lambda a, k: fin.append(("later", a))
        it.steps = 0
        raised = None
        try:
            o = Obj(cls=sw, name="wrapper")
            r = sw.find("__init__")
            try:
                it.call(it.bind(r[0], o, sw), [
                    Obj(call=lambda a, k: (made.append(list(a)), h)[1], name="create"),
                    (Sym("a"), Sym("b")), free], {})
            except Raised as e:
                raised = e.what
            res.inst(key, loc)
            if [repr(x) for x in (made[0] if made else [])] != ["a", "b"] or len(made) != 1:
                res.find(key, "the create function is not called once with its arguments", loc)
            elif null and (not raised or fin):
                res.find(key, "a handle that could not be made is kept or released", loc)
            elif not null and raised:
                res.find(key, "%s is raised for a handle that was made" % raised, loc)
            elif not null and sw.find("__del__") is None and not (
                    len(fin) == 1 and fin[0][0] == "later" and len(fin[0][1]) == 3 and
                    fin[0][1][0] is o and fin[0][1][1] is free and fin[0][1][2] is h):
                res.find(key, "the release function is not registered once for the handle", loc)
            elif not null:
                r = sw.find("_as_parameter_")
                if r is not None and it.getattr(o, "_as_parameter_") is not h:
                    res.find(key, "the object does not stand for its handle in calls", loc)
        except (Unknown, TypeError, IndexError) as e:
            res.info.setdefault("undecided", []).append("%s: %s" % (key, e))
        finally:
            it.hooks.clear()
            it.hooks.update(old)


def run(tier):
    res = common.Result("each Python call reaches the C function that it names, with the "
                        "declared number, order and width of arguments")
    protos = prototypes()
    enums, errs = enumerators()
    pkg = Package()
    wrapped, und, struct = check_wraps(pkg, protos, res)
    classes, und2 = check_calls(pkg, protos, wrapped, res)
    check_methods(pkg, protos, classes, res)
    und3 = check_auto(pkg, protos, res)
    check_mem(pkg, enums, res)
    check_errors(pkg, enums, errs, res)
    check_lifetime(pkg, res)
    res.info["undecided"] = res.info.get("undecided", []) + und + und2 + und3
    res.info["handles"] = {c.name: s for c, s in struct.items()}
    n = Counter(k.split(":")[0] for k in res.instances)
    res.info["instances_by_kind"] = dict(n)
    res.floor("functions declared", n["wrap"], 70)
    res.floor("declared types", n["type"], 500)
    res.floor("arguments passed", n["call"], 300)
    res.floor("classes", n["class"], 6)
    res.assumptions = ["prototypes are those of the CPU build; ctypes passes each argument as "
                       "its declared type", "numpy arrays own their data while referenced"]
    return res
