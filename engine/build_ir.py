"""Compile /repo's library sources to LLVM bitcode and export the linked program.

The compile flags come from the repository's own CMake configuration. Two
configurations exist:
  seq : pragma omp ignored (sequential meaning of every function)
  omp : -fopenmp, parallel regions outlined as the compiler does it
Results are cached by a hash of every input, so a changed tree is rebuilt.
"""
import hashlib
import json
import os
import re
import shlex
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
LLVM_BIN = "/usr/lib/llvm-18/bin"
CACHE = os.environ.get("VERIF_CACHE", "/tmp/verif_cache_%d" % os.getuid())


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       universal_newlines=True, **kw)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (
            " ".join(cmd) if isinstance(cmd, list) else cmd, p.stdout[-4000:]))
    return p.stdout


def source_files(repo=REPO):
    out = []
    for root in ("src", "cmake", "tests"):
        for d, _, fs in os.walk(os.path.join(repo, root)):
            if "__pycache__" in d:
                continue
            for f in fs:
                if f.endswith((".c", ".cpp", ".cu", ".h", ".hpp", ".py", ".txt", ".cmake")):
                    out.append(os.path.join(d, f))
    out.append(os.path.join(repo, "CMakeLists.txt"))
    return sorted(out)


def tree_hash(repo=REPO, extra=()):
    h = hashlib.sha256()
    for f in source_files(repo) + [os.path.join(HERE, "irx.cpp"),
                                   os.path.join(HERE, "build_ir.py"), SELFTEST]:
        if not os.path.isfile(f):
            continue
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    for e in extra:
        h.update(str(e).encode())
    return h.hexdigest()[:24]


def tool():
    """Path of the exporter, built on demand."""
    src = os.path.join(HERE, "irx.cpp")
    with open(src, "rb") as f:
        tag = hashlib.sha256(f.read()).hexdigest()[:16]
    for d in (os.path.join(HERE, "bin"), os.path.join(CACHE, "bin")):
        p = os.path.join(d, "irx-" + tag)
        if os.path.exists(p):
            return p
    d = os.path.join(HERE, "bin")
    try:
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "irx-" + tag)
        flags = run(["llvm-config-18", "--cxxflags"]).split()
        flags = [f for f in flags if f not in ("-fno-exceptions",)]
        tmp = p + ".%d" % os.getpid()
        run(["g++", "-O1"] + flags + ["-fno-rtti", src, "-o", tmp,
             "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
        os.rename(tmp, p)
        return p
    except OSError as e:
        raise BuildError(str(e))


def compile_commands(repo=REPO):
    with tempfile.TemporaryDirectory(prefix="verif_cmake_") as d:
        run(["cmake", "-S", repo, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release",
             "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_CXX_COMPILER=/usr/bin/g++",
             "-DFIND_CUDA=OFF", "-DFIND_MKL=OFF", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"])
        with open(os.path.join(d, "compile_commands.json")) as f:
            db = json.load(f)
    out = []
    for e in db:
        if "/tests/" in os.path.relpath(e["file"], repo).join("//"):
            continue
        if not os.path.realpath(e["file"]).startswith(os.path.realpath(os.path.join(repo, "src"))):
            continue
        args = shlex.split(e.get("command", "")) or e["arguments"]
        keep = []
        for a in args[1:]:
            if a.startswith(("-D", "-std")) or (a.startswith("-I") and d not in a):
                keep.append(a)
        if any(a.startswith("-fopenmp") for a in args):
            keep.append("-fopenmp")
        out.append((e["file"], keep))
    if len(out) < 30:
        raise BuildError("only %d library sources in the build" % len(out))
    return sorted(set((f, tuple(k)) for f, k in out))


def public_functions(repo=REPO):
    """Names declared in the library's headers with C linkage (sdp_*)."""
    names = set()
    base = os.path.join(repo, "src", "ska-sdp-func")
    for d, _, fs in os.walk(base):
        for f in fs:
            if not f.endswith(".h"):
                continue
            with open(os.path.join(d, f), errors="replace") as fh:
                t = fh.read()
            t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
            t = re.sub(r"//[^\n]*", " ", t)
            # A prototype: identifier, parentheses, semicolon at the end.
            for m in re.finditer(r"\b(sdp_\w+)\s*\(([^;{}]*)\)\s*;", t):
                names.add(m.group(1))
    return names


def force_inline(name):
    """Public argument-check helpers are expanded into their callers."""
    return bool(re.match(r"sdp_mem_check_\w+$|sdp_data_model_\w+$", name))


SELFTEST = os.path.join(HERE, "src", "ska-sdp-func", "selftest.cpp")
NOINLINE_FILES = ["pocketfft_hdronly.h", "/include/c++/", "sdp_timer.cpp"]


def _build(config, repo):
    key = tree_hash(repo, [config, repo])
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, "%s-%s.json" % (config, key))
    if os.path.exists(out) and os.path.getsize(out) > 1000:
        return out
    pool = ThreadPoolExecutor(1)
    made = pool.submit(tool)
    cmds = compile_commands(repo)
    cxx = [fl for f, fl in cmds if f.endswith(".cpp")]
    cmds.append((SELFTEST, sorted(set(cxx[0]).union(*cxx))))
    with tempfile.TemporaryDirectory(prefix="verif_ir_") as d:

        def one(item):
            i, (f, flags) = item
            o = os.path.join(d, "%d.bc" % i)
            cxx = f.endswith((".cpp", ".cc"))
            fl = [x for x in flags if x != "-fopenmp" or config == "omp"]
            if not any(x.startswith("-std") for x in fl):
                fl.append("-std=c++11" if cxx else "-std=c99")
            cmd = [os.path.join(LLVM_BIN, "clang++" if cxx else "clang")] + fl + [
                "-DNDEBUG", "-fPIC", "-w", "-g", "-O0", "-Xclang", "-disable-O0-optnone",
                "-fignore-exceptions", "-fno-rtti" if False else "-frtti",
                "-I" + os.path.join(HERE, "stubs"), "-emit-llvm", "-c", f, "-o", o]
            if not cxx:
                cmd = [c for c in cmd if c not in ("-fignore-exceptions", "-frtti")]
            run(cmd, cwd=d)
            return o
        with ThreadPoolExecutor(8) as ex:
            bcs = list(ex.map(one, enumerate(cmds)))
        pub = os.path.join(d, "pub.txt")
        with open(pub, "w") as fh:
            names = sorted(n for n in public_functions(repo) if not force_inline(n))
            with open(SELFTEST) as sf:
                names += re.findall(r"^(?:ST|extern .C. sdp_StPlan\*) (sdp_st_\w+)\(", sf.read(), re.M)
            if len(names) < 120:
                raise BuildError("only %d public functions found" % len(names))
            fh.write("\n".join(names))
        noinl = os.path.join(d, "noinl.txt")
        with open(noinl, "w") as fh:
            fh.write("\n".join(n for n in NOINLINE_FILES if n != "/include/c++/"))
        tmp = out + ".%d" % os.getpid()
        run([made.result(), tmp, pub, noinl] + bcs,
            env=dict(os.environ, IRX_RAW="1") if config == "raw" else None)
        with open(tmp) as fh:
            n = len(json.load(fh)["functions"])
        if n < 120:
            os.unlink(tmp)
            raise BuildError("only %d functions in the exported program" % n)
        os.rename(tmp, out)
    # Keep the cache small.
    olds = sorted((os.path.join(CACHE, x) for x in os.listdir(CACHE)
                   if x.endswith(".json")), key=os.path.getmtime)
    for o in olds[:-8]:
        os.unlink(o)
    return out


def build(config="seq", repo=REPO):
    """Path of the exported program; a failed export is tried once more."""
    try:
        return _build(config, repo)
    except BuildError:
        return _build(config, repo)


if __name__ == "__main__":
    print(build(sys.argv[1] if len(sys.argv) > 1 else "seq"))
