"""Constant propagation over Python syntax trees.

Nothing of the package is imported or run by Python: the statements of a
module are interpreted over a small set of abstract values. Names from
outside the package stay symbolic ("ctypes.c_int"), what cannot be worked
out is UNKNOWN.
"""
import ast


class Unknown(Exception):
    """The value or the path taken cannot be worked out."""


class Raised(Exception):
    """The interpreted program raises an exception."""

    def __init__(self, what):
        Exception.__init__(self, what)
        self.what = what


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Sym(object):
    """Something from outside the package, known by its dotted name."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, Sym) and canon(o.name) == canon(self.name)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(canon(self.name))


ALIAS = {"byte": "int8", "single": "float32", "double": "float64", "csingle": "complex64",
         "cdouble": "complex128", "intc": "int32", "ubyte": "uint8", "float_": "float64",
         "complex_": "complex128", "short": "int16", "longlong": "int64", "int_": "int64",
         "half": "float16"}


def canon(n):
    p = n.split(".")
    if p[0] in ("numpy", "cupy", "np", "cp") and len(p) == 2:
        return "dtype." + ALIAS.get(p[1], p[1])
    if p[0] == "dtype":
        return "dtype." + ALIAS.get(p[1], p[1])
    return n


class App(object):
    """A call of something from outside the package, not worked out."""

    def __init__(self, f, args):
        self.f = f
        self.args = args

    def __repr__(self):
        return "%s(%s)" % (self.f, ", ".join(map(repr, self.args)))

    def __eq__(self, o):
        return isinstance(o, App) and (self.f, self.args) == (o.f, o.args)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(repr(self))


class Func(object):
    def __init__(self, node, env, bound=None, cls=None):
        self.node, self.env, self.bound, self.cls = node, env, bound, cls


class Cls(object):
    def __init__(self, name, node, env, bases):
        self.name, self.node, self.env, self.bases = name, node, env, bases
        self.attrs = {}

    def __repr__(self):
        return "<class %s>" % self.name

    def find(self, n):
        if n in self.attrs:
            return self.attrs[n], self
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.find(n)
                if r is not None:
                    return r
        return None


class Obj(object):
    """A record of attributes; `call`, when given, is what calling it does."""

    def __init__(self, attrs=None, cls=None, call=None, truth=None, name="object"):
        self.attrs = dict(attrs or {})
        self.cls, self.call, self.truth, self.name = cls, call, truth, name

    def __repr__(self):
        return "<%s>" % self.name


class Env(object):
    def __init__(self, interp, parent=None, names=None):
        self.interp, self.parent = interp, parent
        self.names = names if names is not None else {}

    def get(self, n):
        e = self
        while e is not None:
            if n in e.names:
                return e.names[n]
            e = e.parent
        raise KeyError(n)


BUILTIN = {"len", "range", "enumerate", "zip", "isinstance", "tuple", "list", "dict", "int", "float",
           "bool", "str", "getattr", "setattr", "hasattr", "callable", "super", "type", "set",
           "staticmethod", "classmethod", "property", "reversed", "sorted", "next", "iter",
           "max", "min", "abs", "any", "all", "print", "map"}
EXC = {"TypeError", "ValueError", "RuntimeError", "KeyError", "AttributeError", "OSError",
       "ImportError", "NotImplementedError", "Exception", "IndexError", "AssertionError"}


class Interp(object):
    """Interprets modules of a package; `hooks` intercept calls by dotted name."""

    def __init__(self, loader, hooks=None, lenient=True):
        self.loader = loader          # module name -> Env or None
        self.hooks = hooks or {}
        self.lenient = lenient
        self.depth = 0
        self.steps = 0

    # ---- statements -------------------------------------------------------
    def body(self, stmts, env, top=False):
        for s in stmts:
            if top:
                try:
                    self.stmt(s, env, True)
                except (Unknown, Raised):
                    for t in ast.walk(s):
                        if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                            env.names.pop(t.id, None)
            else:
                self.stmt(s, env, False)

    def stmt(self, s, env, top=False):
        self.steps += 1
        if self.steps > 200000:
            raise Unknown("too long")
        if isinstance(s, ast.Expr):
            if not (isinstance(s.value, ast.Constant)):
                self.ex(s.value, env)
        elif isinstance(s, ast.Assign):
            v = self.ex(s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ex(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            cur = self.ex(self.load(s.target), env)
            self.assign(s.target, self.binop(s.op, cur, self.ex(s.value, env)), env)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = Func(s, env)
            kind = None
            for d in s.decorator_list:
                if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod",
                                                        "property"):
                    kind = d.id
            f.kind = kind
            env.names[s.name] = f
        elif isinstance(s, ast.ClassDef):
            bases = []
            for b in s.bases:
                try:
                    bases.append(self.ex(b, env))
                except Unknown:
                    bases.append(None)
            c = Cls(s.name, s, env, bases)
            sub = Env(self, env, c.attrs)
            self.body(s.body, sub, True)
            for v in c.attrs.values():
                if isinstance(v, Func):
                    v.env = env
                    v.cls = c
            env.names[s.name] = c
            for b in c.bases:
                r = b.find("__init_subclass__") if isinstance(b, Cls) else None
                if r is not None:
                    self.call_func(self.bind(r[0], c, r[1]), [], {})
                    break
        elif isinstance(s, ast.Return):
            raise _Return(self.ex(s.value, env) if s.value is not None else None)
        elif isinstance(s, ast.If):
            self.body(s.body if self.truth(self.ex(s.test, env)) else s.orelse, env, top)
        elif isinstance(s, ast.For):
            it = self.iterate(self.ex(s.iter, env))
            try:
                for v in it:
                    self.assign(s.target, v, env)
                    try:
                        self.body(s.body, env)
                    except _Continue:
                        pass
                self.body(s.orelse, env)
            except _Break:
                pass
        elif isinstance(s, ast.While):
            n = 0
            try:
                while self.truth(self.ex(s.test, env)):
                    n += 1
                    if n > 1000:
                        raise Unknown("loop")
                    try:
                        self.body(s.body, env)
                    except _Continue:
                        pass
            except _Break:
                pass
        elif isinstance(s, ast.Break):
            raise _Break()
        elif isinstance(s, ast.Continue):
            raise _Continue()
        elif isinstance(s, ast.Try):
            try:
                self.body(s.body, env)
                self.body(s.orelse, env)
            except Raised as e:
                if not s.handlers:
                    self.body(s.finalbody, env)
                    raise
                h = None
                for x in s.handlers:
                    ns = [x.type] if x.type is None or not isinstance(x.type, ast.Tuple) \
                        else x.type.elts
                    if any(n is None or ast.unparse(n).split(".")[-1] in
                           (e.what, "Exception", "BaseException") for n in ns):
                        h = x
                        break
                if h is None:
                    self.body(s.finalbody, env)
                    raise
                if h.name:
                    env.names[h.name] = Sym("exception")
                self.body(h.body, env)
            self.body(s.finalbody, env)
        elif isinstance(s, ast.With):
            for w in s.items:
                v = self.ex(w.context_expr, env)
                if w.optional_vars is not None:
                    self.assign(w.optional_vars, v, env)
            self.body(s.body, env)
        elif isinstance(s, ast.Raise):
            n = ast.unparse(s.exc.func if isinstance(s.exc, ast.Call) else s.exc) \
                if s.exc is not None else "Exception"
            raise Raised(n.split(".")[-1])
        elif isinstance(s, ast.Import):
            for a in s.names:
                env.names[(a.asname or a.name).split(".")[0]] = Sym(
                    a.name if a.asname else a.name.split(".")[0])
        elif isinstance(s, ast.ImportFrom):
            self.import_from(s, env)
        elif isinstance(s, ast.Assert):
            pass
        elif isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal, ast.Delete)):
            pass
        else:
            raise Unknown(type(s).__name__)

    def import_from(self, s, env):
        e = env
        while e is not None and "__package__" not in e.names:
            e = e.parent
        pkg = e.names["__package__"] if e is not None else ""
        base = s.module or ""
        if s.level:
            parts = pkg.split(".")
            parts = parts[:len(parts) - (s.level - 1)]
            base = ".".join([p for p in parts if p] + ([s.module] if s.module else []))
        m = self.loader(base)
        for a in s.names:
            v = None
            if m is not None:
                try:
                    v = m.get(a.name)
                except KeyError:
                    sub = self.loader(base + "." + a.name)
                    v = Obj(sub.names, name="module") if sub is not None else \
                        Sym(base + "." + a.name)
            else:
                v = Sym(base + "." + a.name)
            env.names[a.asname or a.name] = v

    def load(self, t):
        n = ast.parse(ast.unparse(t), mode="eval").body
        return n

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.names[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iterate(v))
            if any(isinstance(e, ast.Starred) for e in t.elts) or len(vs) != len(t.elts):
                raise Unknown("unpacking")
            for e, x in zip(t.elts, vs):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            o = self.ex(t.value, env)
            if isinstance(o, (Obj, Cls)):
                o.attrs[t.attr] = v
            elif not isinstance(o, (Sym, App)):
                raise Unknown("attribute store")
        elif isinstance(t, ast.Subscript):
            o = self.ex(t.value, env)
            if isinstance(o, (dict, list)):
                o[self.ex(t.slice, env)] = v
            elif not isinstance(o, (Sym, App)):
                raise Unknown("subscript store")
        else:
            raise Unknown("store")

    # ---- expressions ------------------------------------------------------
    def truth(self, v):
        if isinstance(v, Obj):
            if v.truth is not None:
                return v.truth()
            return True
        if isinstance(v, (Func, Cls)) or callable(v):
            return True
        if isinstance(v, Sym):
            return True
        if isinstance(v, App):
            raise Unknown("truth of %r" % v)
        return bool(v)

    def iterate(self, v):
        if isinstance(v, (list, tuple, str, set, range)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, (zip, enumerate, reversed, map)):
            return list(v)
        raise Unknown("iteration over %r" % (v,))

    def ex(self, n, env):
        self.steps += 1
        if self.steps > 200000:
            raise Unknown("too long")
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            try:
                return env.get(n.id)
            except KeyError:
                if n.id in BUILTIN or n.id in EXC:
                    return Sym("builtins." + n.id)
                raise Unknown("name " + n.id)
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
            out = []
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    out += self.iterate(self.ex(e.value, env))
                else:
                    out.append(self.ex(e, env))
            return out if isinstance(n, ast.List) else tuple(out)
        if isinstance(n, ast.Dict):
            d = {}
            for k, v in zip(n.keys, n.values):
                if k is None:
                    d.update(self.ex(v, env))
                else:
                    d[self.ex(k, env)] = self.ex(v, env)
            return d
        if isinstance(n, ast.Attribute):
            return self.getattr(self.ex(n.value, env), n.attr)
        if isinstance(n, ast.Subscript):
            o = self.ex(n.value, env)
            if isinstance(n.slice, ast.Slice):
                if isinstance(o, (list, tuple, str)):
                    g = [None if x is None else self.ex(x, env)
                         for x in (n.slice.lower, n.slice.upper, n.slice.step)]
                    return o[slice(*g)]
                return App("slice", (o,))
            k = self.ex(n.slice, env)
            if isinstance(o, dict):
                if k in o:
                    return o[k]
                raise Raised("KeyError")
            if isinstance(o, (list, tuple, str)) and isinstance(k, int):
                try:
                    return o[k]
                except IndexError:
                    raise Raised("IndexError")
            return App("item", (o, k))
        if isinstance(n, ast.BinOp):
            return self.binop(n.op, self.ex(n.left, env), self.ex(n.right, env))
        if isinstance(n, ast.UnaryOp):
            v = self.ex(n.operand, env)
            if isinstance(n.op, ast.Not):
                return not self.truth(v)
            if isinstance(v, (int, float)):
                return -v if isinstance(n.op, ast.USub) else (
                    +v if isinstance(n.op, ast.UAdd) else ~v)
            return App(type(n.op).__name__, (v,))
        if isinstance(n, ast.BoolOp):
            v = None
            for e in n.values:
                v = self.ex(e, env)
                t = self.truth(v)
                if isinstance(n.op, ast.And) and not t or isinstance(n.op, ast.Or) and t:
                    return v
            return v
        if isinstance(n, ast.Compare):
            left = self.ex(n.left, env)
            for op, r in zip(n.ops, n.comparators):
                right = self.ex(r, env)
                if not self.compare(op, left, right):
                    return False
                left = right
            return True
        if isinstance(n, ast.IfExp):
            return self.ex(n.body if self.truth(self.ex(n.test, env)) else n.orelse, env)
        if isinstance(n, ast.JoinedStr):
            out = ""
            for v in n.values:
                if isinstance(v, ast.Constant):
                    out += v.value
                    continue
                x = self.ex(v.value, env)
                if not isinstance(x, (str, int, float)) or v.format_spec is not None:
                    return App("format", ())
                out += repr(x) if v.conversion == 114 else str(x)
            return out
        if isinstance(n, ast.Lambda):
            f = ast.FunctionDef(name="<lambda>", args=n.args, decorator_list=[],
                                body=[ast.Return(value=n.body)], lineno=n.lineno)
            g = Func(f, env)
            g.kind = None
            return g
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
            out = []

            def go(k, e):
                if k == len(n.generators):
                    if isinstance(n, ast.DictComp):
                        out.append((self.ex(n.key, e), self.ex(n.value, e)))
                    else:
                        out.append(self.ex(n.elt, e))
                    return
                g = n.generators[k]
                for v in self.iterate(self.ex(g.iter, e)):
                    e2 = Env(self, e)
                    self.assign(g.target, v, e2)
                    if all(self.truth(self.ex(c, e2)) for c in g.ifs):
                        go(k + 1, e2)
            go(0, env)
            return dict(out) if isinstance(n, ast.DictComp) else out
        if isinstance(n, ast.Call):
            return self.call_node(n, env)
        raise Unknown(type(n).__name__)

    def compare(self, op, a, b):
        def eq(x, y):
            for p, q in ((x, y), (y, x)):
                if isinstance(p, Sym) and isinstance(q, str) and canon(p.name).startswith(
                        "dtype."):
                    return canon("dtype." + q) == canon(p.name)
                if isinstance(p, App) or isinstance(p, Obj) and p is not q and isinstance(
                        q, (Obj, App)):
                    if p is q or p == q:
                        return True
                    if isinstance(p, App):
                        raise Unknown("comparison")
            if isinstance(x, Sym) != isinstance(y, Sym):
                s = x if isinstance(x, Sym) else y
                if canon(s.name).startswith("dtype."):
                    return False
            return x == y
        if isinstance(op, ast.Eq):
            return eq(a, b)
        if isinstance(op, ast.NotEq):
            return not eq(a, b)
        if isinstance(op, ast.Is):
            return a is b or (a == b and isinstance(a, (Sym, bool, type(None))))
        if isinstance(op, ast.IsNot):
            return not (a is b or (a == b and isinstance(a, (Sym, bool, type(None)))))
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, str) and isinstance(a, str):
                r = a in b
            else:
                r = any(eq(a, x) for x in self.iterate(b))
            return r if isinstance(op, ast.In) else not r
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        raise Unknown("comparison")

    def binop(self, op, a, b):
        if isinstance(op, ast.Mult) and isinstance(a, (Sym, App)) and isinstance(b, (Sym, App, int)):
            return App("array", (a, b))
        num = (int, float)
        try:
            if isinstance(a, num) and isinstance(b, num) or \
                    isinstance(op, (ast.Add, ast.Mult)) and isinstance(
                        a, (list, tuple, str, int)) and isinstance(b, (list, tuple, str, int)):
                return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b,
                        ast.Mult: lambda: a * b, ast.Div: lambda: a / b,
                        ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b,
                        ast.Pow: lambda: a ** b, ast.BitOr: lambda: a | b,
                        ast.BitAnd: lambda: a & b, ast.BitXor: lambda: a ^ b,
                        ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b}[type(op)]()
        except (TypeError, KeyError, ZeroDivisionError):
            raise Unknown("arithmetic")
        if isinstance(a, dict) and isinstance(b, dict) and isinstance(op, ast.BitOr):
            d = dict(a)
            d.update(b)
            return d
        return App(type(op).__name__, (a, b))

    def getattr(self, o, name):
        if isinstance(o, Sym):
            return Sym(o.name + "." + name)
        if isinstance(o, App):
            return App("attr", (o, name))
        if isinstance(o, Obj):
            if name in o.attrs:
                return o.attrs[name]
            if o.cls is not None:
                r = o.cls.find(name)
                if r is not None:
                    v = r[0]
                    if isinstance(v, Func):
                        k = getattr(v, "kind", None)
                        if k == "property":
                            return self.call(self.bind(v, o, r[1]), [], {})
                        if k == "staticmethod":
                            return v
                        return self.bind(v, o if k != "classmethod" else o.cls, r[1])
                    return v
                if name == "__class__":
                    return o.cls
            if "__getattr__" in o.attrs:
                return o.attrs["__getattr__"](name)
            raise Raised("AttributeError")
        if isinstance(o, Cls):
            r = o.find(name)
            if r is not None:
                v = r[0]
                if isinstance(v, Func) and getattr(v, "kind", None) == "classmethod":
                    return self.bind(v, o, r[1])
                return v
            if name == "__name__":
                return o.name
            h = self.hooks.get("class " + o.name + ".*")
            if h is not None:
                return h(name)
            return Sym("%s.%s" % (o.name, name))
        if isinstance(o, (dict, list, str, tuple, bytes)):
            return ("method", o, name)
        if isinstance(o, Func) and name == "__name__":
            return o.node.name
        raise Unknown("attribute %s of %r" % (name, o))

    def bind(self, f, o, cls):
        g = Func(f.node, f.env, o, cls)
        g.kind = getattr(f, "kind", None)
        return g

    def call_node(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return self.make_super(env)
        f = self.ex(n.func, env)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args += self.iterate(self.ex(a.value, env))
            else:
                args.append(self.ex(a, env))
        for k in n.keywords:
            v = self.ex(k.value, env)
            if k.arg is None:
                if not isinstance(v, dict):
                    raise Unknown("keywords")
                kw.update(v)
            else:
                kw[k.arg] = v
        self.site = n
        return self.call(f, args, kw)

    def make_super(self, env):
        e = env
        while e is not None and "__self__" not in e.names:
            e = e.parent
        if e is None:
            raise Unknown("super")
        o, c = e.names["__self__"], e.names["__cls__"]

        def ga(name):
            for b in c.bases:
                if isinstance(b, Cls):
                    r = b.find(name)
                    if r is not None and isinstance(r[0], Func):
                        return self.bind(r[0], o, r[1])
            return Sym("super." + name)
        return Obj({"__getattr__": ga}, name="super")

    def call(self, f, args, kw):
        if isinstance(f, tuple) and len(f) == 3 and f[0] == "method":
            return self.method(f[1], f[2], args, kw)
        if isinstance(f, Obj) and f.call is not None:
            return f.call(args, kw)
        if isinstance(f, Sym):
            h = self.hooks.get(f.name)
            if h is not None:
                return h(args, kw)
            if f.name.startswith("builtins."):
                return self.builtin(f.name[9:], args, kw)
            if canon(f.name) == "dtype.dtype" and len(args) == 1:
                return args[0] if isinstance(args[0], Sym) else Sym("dtype." + str(args[0]))
            return App(f.name, tuple(args) + tuple(sorted(kw.items(), key=lambda x: x[0])))
        if isinstance(f, App):
            return App(repr(f), tuple(args))
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Cls):
            h = self.hooks.get("new " + f.name)
            if h is not None:
                return h(args, kw)
            o = Obj(cls=f, name=f.name)
            r = f.find("__init__")
            if r is not None and isinstance(r[0], Func):
                self.call_func(self.bind(r[0], o, r[1]), args, kw)
            return o
        if callable(f):
            return f(args, kw)
        raise Unknown("call of %r" % (f,))

    def call_func(self, f, args, kw):
        h = self.hooks.get("def " + (f.cls.name + "." if f.cls is not None else "") + f.node.name)
        if h is not None:
            return h(args, kw, f)
        if self.depth > 20:
            raise Unknown("depth")
        a = f.node.args
        env = Env(self, f.env)
        if f.bound is not None and getattr(f, "kind", None) != "staticmethod":
            args = [f.bound] + list(args)
        if f.cls is not None and args:
            env.names["__self__"], env.names["__cls__"] = args[0], f.cls
        pos = a.posonlyargs + a.args
        names = [x.arg for x in pos]
        args = list(args)
        for nme, v in zip(names, args):
            env.names[nme] = v
        if len(args) > len(names):
            if a.vararg is None:
                raise Raised("TypeError")
            env.names[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            env.names[a.vararg.arg] = ()
        rest = {}
        allowed = set(names[len(args):]) | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k in allowed:
                env.names[k] = v
            elif a.kwarg is not None:
                rest[k] = v
            else:
                raise Raised("TypeError")
        if a.kwarg is not None:
            env.names[a.kwarg.arg] = rest
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
                [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if p.arg not in env.names:
                env.names[p.arg] = self.ex(d, f.env)
        for p in pos + a.kwonlyargs:
            if p.arg not in env.names:
                raise Raised("TypeError")
        self.depth += 1
        try:
            self.body(f.node.body, env)
            return None
        except _Return as r:
            return r.v
        finally:
            self.depth -= 1

    def method(self, o, name, args, kw):
        try:
            if isinstance(o, dict):
                if name == "get":
                    k = args[0]
                    d = args[1] if len(args) > 1 else None
                    for kk, v in o.items():
                        if isinstance(kk, Sym) and isinstance(k, (Sym, str)):
                            if self.compare(ast.Eq(), kk, k):
                                return v
                    return o.get(k, d)
                if name in ("items", "keys", "values"):
                    return list(getattr(o, name)())
                if name in ("update", "pop", "setdefault", "copy"):
                    return getattr(o, name)(*args, **kw)
            if isinstance(o, list) and name in ("append", "extend", "insert", "pop", "copy",
                                                "index"):
                return getattr(o, name)(*args)
            if isinstance(o, str) and name in ("format", "join", "upper", "lower", "split",
                                               "replace", "startswith", "endswith", "strip"):
                return getattr(o, name)(*args, **kw)
            if isinstance(o, (str, bytes)) and name in ("encode", "decode"):
                return o
        except (KeyError, TypeError, ValueError, IndexError, AttributeError):
            raise Unknown("method " + name)
        raise Unknown("method " + name)

    def builtin(self, n, args, kw):
        if n == "isinstance":
            o, t = args
            ts = t if isinstance(t, tuple) else (t,)
            for x in ts:
                if isinstance(o, Obj) and "__type__" in o.attrs and isinstance(x, Sym) and \
                        o.attrs["__type__"] == x.name:
                    return True
                if isinstance(o, Obj) and isinstance(x, Cls) and o.cls is not None:
                    c = [o.cls]
                    while c:
                        y = c.pop()
                        if y is x:
                            return True
                        c += [b for b in y.bases if isinstance(b, Cls)]
            if isinstance(o, (App, Sym)):
                raise Unknown("isinstance")
            return False
        if n == "callable":
            return isinstance(args[0], (Func, Cls, Sym)) or callable(args[0]) or (
                isinstance(args[0], Obj) and args[0].call is not None)
        if n == "getattr":
            try:
                return self.getattr(args[0], args[1])
            except Raised:
                if len(args) > 2:
                    return args[2]
                raise
        if n == "hasattr":
            try:
                self.getattr(args[0], args[1])
                return True
            except Raised:
                return False
        if n == "setattr":
            if isinstance(args[0], (Obj, Cls)):
                args[0].attrs[args[1]] = args[2]
                return None
            raise Unknown("setattr")
        if n == "type" and len(args) == 3:
            return Cls(args[0], None, None, list(args[1]))
        if n == "type" and len(args) == 1:
            if isinstance(args[0], Obj) and args[0].cls is not None:
                return args[0].cls
            raise Unknown("type")
        if n in ("int", "float", "bool", "str") and len(args) == 1:
            v = args[0]
            if n == "bool":
                return self.truth(v)
            if isinstance(v, (int, float, str, bool)):
                try:
                    return {"int": int, "float": float, "str": str}[n](v)
                except ValueError:
                    raise Raised("ValueError")
            return App(n, (v,))
        vals = [list(a) if isinstance(a, (dict, list, tuple, range, zip, enumerate)) else a
                for a in args]
        try:
            if n == "len" and isinstance(vals[0], (list, str, bytes)):
                return len(vals[0])
            if n == "range":
                return list(range(*args))
            if n in ("enumerate", "zip", "reversed"):
                return list({"enumerate": enumerate, "zip": zip, "reversed": reversed}[n](*vals))
            if n == "tuple" and not isinstance(args[0] if args else (), (App, Sym)):
                return tuple(vals[0]) if vals else ()
            if n == "list" and not isinstance(args[0] if args else (), (App, Sym)):
                return list(vals[0]) if vals else []
            if n == "dict":
                return dict(*args, **kw)
            if n in ("any", "all"):
                return {"any": any, "all": all}[n](self.truth(x) for x in vals[0])
            if n in ("max", "min", "abs", "sorted"):
                return {"max": max, "min": min, "abs": abs, "sorted": sorted}[n](*args)
        except (TypeError, IndexError, ValueError):
            raise Unknown("builtin " + n)
        return App("builtins." + n, tuple(args))
