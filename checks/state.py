"""G01: calls keep nothing between them and touch nothing outside their arguments.

Every store whose address is (or is reached through) a global variable, and every
call of an outside function that reads or changes the state of the process, in
every function of the library.
"""
import re

import absint
import build_ir
import races
from common import Broken, Result

# Files whose purpose is state of the process: the log and the timers; the table
# of device kernels is filled before main() and only read afterwards.
LOG = re.compile(r"/utility/sdp_(logging|timer)\.(c|cpp|h)$")
START = re.compile(r"^(_GLOBAL__sub_I_|__cxx_global_var_init|__cxx_global_array_dtor)")

READS = [
    ("random numbers", r"(s?rand|rand_r|s?random|[dlm]rand48|getentropy|getrandom|arc4random\w*|"
     r"_ZNSt13random_device.*)"),
    ("the time", r"(time|clock|gettimeofday|clock_gettime|ftime|times|gmtime(_r)?|localtime(_r)?|"
     r"mktime|ctime(_r)?|strftime|_ZNSt6chrono.*clock3nowEv)"),
    ("the environment", r"(secure_getenv|getenv|getpid|gethostname|uname|getcwd|sysconf)"),
]
WRITES = [
    ("the environment", r"(setenv|putenv|unsetenv|clearenv|chdir|umask|setrlimit)"),
    ("the locale", r"(setlocale|uselocale|_ZNSt6locale6global.*)"),
    ("the floating-point mode", r"(fesetround|fesetenv|feupdateenv|feenableexcept|"
     r"fedisableexcept|_controlfp|_mm_setcsr|llvm\.x86\.sse\.ldmxcsr|llvm\.set\.rounding)"),
    ("signal handlers", r"(signal|sigaction|sigprocmask|alarm|setitimer)"),
    ("the standard streams", r"(v?f?printf|puts|putchar|putc|fputc|fputs|fwrite|perror|write|"
     r"__v?f?printf_chk|_ZNSo.*|_ZStls.*|_ZSt(16__ostream_insert|4endl|5flush).*|"
     r"_ZNSt8ios_base\w*|std_stream)"),
    ("files", r"(fopen(64)?|freopen|open(64)?|creat|remove|unlink|rename|mkdir|rmdir|tmpfile|"
     r"mkstemp|system|popen|_ZNSt1[34]basic_[io]?f?(stream|filebuf).*4open.*)"),
    ("the process", r"(_?exit|_Exit|quick_exit|abort|raise|kill|_ZSt9terminatev|__assert_fail|"
     r"longjmp|fork|vfork|execv\w*|atexit|on_exit|pthread_exit)"),
    ("the parallel settings", r"(omp_set_(num_threads|dynamic|nested|schedule|"
     r"max_active_levels|default_device|teams_thread_limit|num_teams)|kmp_set_\w+)"),
    ("the random generator", r"(srand|srandom|srand48|seed48|initstate|setstate)"),
]
# What a function is documented to do.
ALLOWED = {("sdp_mem_random_fill", "random numbers"):
           "fills an array with random numbers, as it says"}
GETTER = {"omp_set_" + x: "omp_get_" + y for x, y in (
    ("num_threads", "max_threads"), ("dynamic", "dynamic"), ("nested", "nested"),
    ("max_active_levels", "max_active_levels"), ("default_device", "default_device"))}
GETTER["fesetround"] = "fegetround"

SELF = {"sdp_st_state_bad_count": "keeps", "sdp_st_state_bad_cache": "keeps",
        "sdp_st_state_bad_time": "the time", "sdp_st_state_bad_mode": "the floating-point mode",
        "sdp_st_state_bad_print": "the standard streams", "sdp_st_state_bad_exit": "the process",
        "sdp_st_state_bad_unset": "unset", "sdp_st_state_bad_sum": "unset",
        "sdp_st_state_bad_restore": "the floating-point mode"}


def kind(name):
    out = []
    for what, pat in READS:
        if re.match(pat + "$", name):
            out.append(("depends on", what))
    for what, pat in WRITES:
        if re.match(pat + "$", name):
            out.append(("changes", what))
    return out


class Fun(object):
    def __init__(self, prog, f):
        self.prog, self.f = prog, f
        self.p = races.Poly(prog, f)

    def globs(self, p, reach=False):
        """Global variables that this address lies in (or is reached through)."""
        out = set()
        for m in p:
            for a in m:
                if a[0] == "glob":
                    out.add(a[1])
                elif a[0] in ("ld", "data") and reach:
                    out |= self.globs(dict(a[1]), True)
                elif a[0] in ("phi", "op") and a[1] not in self.seen:
                    self.seen.add(a[1])
                    for o in self.f.inst[a[1]].ops:
                        if self.f.inst[a[1]].ty == "ptr":
                            out |= self.globs(self.p(o), reach)
        return out

    def of_call(self, v, seen=None):
        """The value depends on the arguments of the call."""
        seen = set() if seen is None else seen
        if not isinstance(v, int):
            return v[0] == "a" and v[1:].isdigit()
        if v in seen:
            return False
        seen.add(v)
        i = self.f.inst[v]
        if i.op == "alloca":
            # what is stored there, through any address formed from it
            mine, work = {v}, [v]
            while work:
                x = work.pop()
                for j in self.f.inst.values():
                    if x not in j.ops:
                        continue
                    if j.op in ("getelementptr", "bitcast", "phi", "select"):
                        if j.id not in mine:
                            mine.add(j.id)
                            work.append(j.id)
                    elif j.op == "store" and j.ops[1] in mine and self.of_call(j.ops[0], seen):
                        return True
                    elif j.op in ("call", "invoke") and any(
                            self.of_call(o, seen) for o in j.ops if o not in mine):
                        return True
        return any(self.of_call(o, seen) for o in i.ops)

    def guards(self, i):
        """The store belongs to the first use of a static local variable."""
        return any(x.op in ("call", "invoke") and x.ex == "__cxa_guard_acquire"
                   and self.f.dominates(x.block, i.block) for x in self.f.inst.values())

    def restored(self, i):
        """The setting is put back to what it was, on every path from here."""
        f = self.f
        get = GETTER.get(i.ex)
        if not get:
            return False
        gets = {x.id for x in f.inst.values() if x.op == "call" and x.ex == get}
        back = {x.id for x in f.inst.values() if x.op == "call" and x.ex == i.ex
                and x.ops[0] in gets}
        if i.id in back:
            # the value put back was read before any change
            g = f.inst[i.ops[0]]
            return not any(x.op == "call" and x.ex == i.ex and x.id not in back and
                           self.before(x, g) for x in f.inst.values())
        work, seen = [(i.block, i.idx + 1)], set()
        while work:
            b, n = work.pop()
            if (b, n) in seen:
                continue
            seen.add((b, n))
            for x in f.blocks[b][n:]:
                if x.id in back:
                    break
                if x.op == "ret":
                    return False
            else:
                work.extend((s, 0) for s in f.succ[b])
        return True

    def before(self, x, g):
        """x can run before g."""
        f = self.f
        work, seen = [(x.block, x.idx + 1)], set()
        while work:
            b, n = work.pop()
            if (b, n) in seen:
                continue
            seen.add((b, n))
            if any(y is g for y in f.blocks[b][n:]):
                return True
            work.extend((s, 0) for s in f.succ[b])
        return False


class Unset(object):
    """Uses of values that no path has set."""

    def __init__(self, f):
        self.f = f
        self.live = self.reached()
        und, changed = set(), True
        self.phi = {}
        while changed:
            changed = False
            for i in f.inst.values():
                if i.op != "phi" or i.id in und:
                    continue
                ops = [o for o in i.ops if o != i.id]
                if all(o == "u" or o in und for o in ops):
                    und.add(i.id)
                    changed = True
        self.und = und
        # set by an earlier iteration only: the first one reads what was never set
        for i in f.inst.values():
            if i.op == "phi" and i.block in f.headers and i.id not in und:
                first = [o for o, p in zip(i.ops, i.ex) if (p, i.block) not in f.back]
                if first and all(o == "u" or o in und for o in first):
                    self.phi[i.id] = i

    def reached(self):
        """Blocks that are not behind a constant condition (unrolled loops)."""
        f, seen, work = self.f, set(), self.f.rpo[:1]
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            t, nxt = f.blocks[b][-1], f.succ[b]
            if t.op == "br" and t.ops and t.ops[0] in ("i:0", "i:1", "i:-1"):
                nxt = [t.ex[1] if t.ops[0] == "i:0" else t.ex[0]]
            work.extend(nxt)
        return seen

    def first_turn(self, i, p):
        """i runs in the first iteration, before anything can leave it out."""
        f = self.f
        b = f.inst[p].block
        if i.block == b:
            return True
        work, seen = [b], set()
        # every path from the header back to it, or out of the loop, passes i
        while work:
            x = work.pop()
            if x == i.block or x in seen:
                continue
            seen.add(x)
            for y in f.succ[x]:
                if y == b or y not in f.loops.get(b, ()):
                    if x != b or y == b:
                        return False
                    continue
                work.append(y)
        return True

    def uses(self):
        f = self.f
        for b in f.rpo:
            for i in f.blocks[b] if b in self.live else ():
                if i.op in ("phi", "insertvalue", "insertelement", "unreachable", "ret"):
                    continue
                if i.op in ("call", "invoke") and isinstance(i.ex, str) and \
                        i.ex.startswith(("llvm.", "__kmpc_", "sdp_log_message")):
                    continue
                if i.op == "shufflevector":
                    continue
                for k, o in enumerate(i.ops):
                    if o == "u" or o in self.und or (
                            o in self.phi and self.first_turn(i, o)):
                        yield i, k
                        break
        yield from self.memory()

    def memory(self):
        """Local variables in memory that are read where nothing can have written them."""
        f = self.f
        for a in f.inst.values():
            if a.op != "alloca":
                continue
            mine, work, reads, writes, odd = {a.id}, [a.id], [], [], False
            while work:
                v = work.pop()
                for i in f.inst.values():
                    if v not in i.ops:
                        continue
                    if i.op == "load":
                        reads.append(i)
                    elif i.op in ("getelementptr", "bitcast", "phi", "select"):
                        if i.id not in mine:
                            mine.add(i.id)
                            work.append(i.id)
                    elif i.op in ("call", "invoke") and str(i.ex).startswith(
                            ("llvm.lifetime", "llvm.dbg")):
                        continue
                    else:
                        writes.append(i)
            if not reads:
                continue
            seen, todo = set(), [(w.block, w.idx + 1) for w in writes]
            reach = set()
            while todo:
                b, n = todo.pop()
                if (b, n) in seen:
                    continue
                seen.add((b, n))
                reach.update(i.id for i in f.blocks[b][n:])
                todo.extend((s, 0) for s in f.succ[b])
            for r in reads:
                if r.id not in reach and r.block in f.rpo:
                    yield r, 0


def never_set(res, hit):
    """Uses of values never set, in the program before anything is folded."""
    prog = absint.Program(build_ir.build("raw"), invariants=False)
    count = 0
    for name, f in sorted(prog.funcs.items()):
        if not f.blocks or name.startswith("_ZN9pocketfft"):
            continue
        who = re.sub(r"[<(].*", "", f.dname).split(" ")[-1].split("::")[-1]
        st = re.match(r"sdp_st_\w+?(?=\.|$)", name)
        count += len(f.inst)
        for i, k in Unset(f).uses():
            if st:
                hit.setdefault(st.group(0), set()).add("unset")
                continue
            ch = [c for c in f.chain(i.loc) if "/utility/" not in c[0] and c[1]]
            file, line, inner = (ch or [f.where(i.loc)])[0][:3]
            inner = re.sub(r"[<(].*", "", inner).split(" ")[-1].split("::")[-1]
            res.find("%s:unset:%s" % (who, inner), "%s uses a variable that was never given a "
                     "value, in %s" % (who, inner), "%s:%s" % (file, line))
    return count


def run(tier):
    res = Result("no function stores in a global variable, or uses or changes the state of the "
                 "process")
    prog = absint.Program(build_ir.build("omp"), invariants=False)
    effects = races.make_effects(prog)
    hit, nfun, ncall, nstore = {}, 0, 0, 0
    const = {n for n, g in prog.globals.items() if g["const"]}
    outside = {}
    for name, f in sorted(prog.funcs.items()):
        if not f.blocks or name.startswith("_ZN9pocketfft"):
            continue
        who = re.sub(r"[<(].*", "", f.dname).split(" ")[-1].split("::")[-1]
        st = re.match(r"sdp_st_\w+?(?=\.|$)", name)
        fun = Fun(prog, f)
        nfun += not st
        for b in f.rpo:
            for i in f.blocks[b]:
                file, line = f.where(i.loc)[:2]
                loc = "%s:%s" % (file, line)
                bad = []
                dest = []
                if i.op in ("store", "atomicrmw", "cmpxchg"):
                    dest = [(i.ops[1] if i.op == "store" else i.ops[0],
                             i.ops[0] if i.op == "store" else None)]
                elif i.op in ("call", "invoke") and isinstance(i.ex, str):
                    n = i.ex
                    if n.startswith(races.WRITES_FIRST):
                        dest = [(i.ops[0], None)]
                    elif n in prog.funcs:
                        dest = [(i.ops[k], None) for k in effects(n)[0]
                                if k != "glob" and k < len(i.ops)]
                    else:
                        ncall += 1
                        outside.setdefault(n, loc)
                        streams = [o for o in i.ops if isinstance(o, str) and
                                   re.match(r"g:_ZSt[34](cout|cerr|clog)", o)]
                        for verb, what in kind("std_stream" if streams else n):
                            if LOG.search(file) or (who, what) in ALLOWED:
                                continue
                            if fun.restored(i):
                                continue
                            bad.append((what, "%s %s (%s)" % (verb, what, n)))
                for d, v in dest:
                    fun.seen = set()
                    gs = fun.globs(fun.p(d), True)
                    nstore += 1
                    for g in sorted(gs):
                        if g in const or g.startswith((".str", "_ZGV", "__const")):
                            continue
                        if START.match(name) or LOG.search(file):
                            continue
                        if fun.guards(i) and v is not None and not fun.of_call(v):
                            continue
                        bad.append(("keeps", "stores in the global variable %s, which outlives "
                                    "the call" % prog.globals.get(g, {}).get("dname", g)))
                for what, msg in bad:
                    if st:
                        hit.setdefault(st.group(0), set()).add(what)
                        continue
                    res.find(("%s:%s" % (who, what)).replace(" ", "_"), "%s %s" % (who, msg), loc)
        if not st:
            res.inst("function:" + name[:120], "%s:%s" % f.where(None)[:2])
    nuse = never_set(res, hit)
    for g, d in sorted(prog.globals.items()):
        if not d["const"] and not d["decl"] and "st_state" not in g and not g.startswith((".", "_ZGV")):
            res.info.setdefault("writable_globals", []).append(d.get("dname", g))
    miss = {k: v for k, v in SELF.items() if v not in hit.get(k, ())}
    good = [k for k in hit if "_state_bad" not in k]
    if miss or good:
        raise Broken("self-test: not reported %s, reported %s" % (miss, good))
    res.floor("functions", nfun, 150)
    res.floor("stores and calls that write", nstore, 2000)
    res.floor("instructions examined for unset values", nuse, 20000)
    res.info.update({"functions": nfun, "instructions_for_unset_values": nuse, "writes": nstore, "outside_calls": ncall,
                     "outside_functions": sorted(outside),
                     "allowed": ["%s / %s: %s" % (k + (v,)) for k, v in ALLOWED.items()],
                     "self_test": sorted(SELF)})
    res.assumptions = ["the log, the timers and pocketfft's plan cache are not results",
                       "the C and C++ libraries keep no state beyond what they document"]
    res.explanation = ("Every store, and every call of a function outside the library, in every "
                       "function of the program with its parallel regions.")
    return res
