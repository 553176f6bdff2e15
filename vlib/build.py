"""Builds the analysed program: whole-library LLVM bitcode from /repo's current
working tree, and the irdump tool.  Nothing here executes library code."""
import os, re, sys, json, hashlib, subprocess, tempfile, shutil, atexit
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = "/usr/bin/clang-18"
CLANGXX = "/usr/bin/clang++-18"
LINK = "/usr/bin/llvm-link-18"
NM = "/usr/bin/llvm-nm-18"


class AnalysisError(Exception):
    """The analysis could not be carried out (exit code 2, neither held nor violated)."""


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise AnalysisError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd)[:400], p.stdout[-4000:]))
    return p.stdout


def tool():
    """Path of the irdump binary, (re)built when its source changed."""
    src = os.path.join(VERIF, "engine", "irdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(VERIF, "build", "irdump-" + h)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".tmp%d" % os.getpid()
        _run(["g++", "-O1", "-std=c++17", "-fno-rtti", "-fno-exceptions",
              "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
              "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", tmp,
              "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
        os.replace(tmp, out)
    return out


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vnx-sa-")
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def lib_units():
    """Translation units of the library, from the project's own source lists."""
    txt = ""
    for f in ["CMakeLists.txt"]:
        txt += open(os.path.join(REPO, f)).read()
    txt = re.sub(r"#[^\n]*", "", txt)
    units = []
    for m in re.finditer(r"[\w./+-]+\.(?:cc|cpp|c)\b", txt):
        p = os.path.join(REPO, m.group(0))
        if os.path.isfile(p) and p not in units and not m.group(0).startswith("tests/"):
            units.append(p)
    if len(units) < 60:
        raise AnalysisError("only %d library translation units found in CMakeLists.txt" % len(units))
    return units


def config_include():
    """A directory holding a generated nx_config.h (the project generates it at configure time)."""
    d = os.path.join(scratch(), "cfg", "virg", "nexus")
    if not os.path.isdir(d):
        os.makedirs(d)
        t = open(os.path.join(REPO, "include/virg/nexus/nx_config.h.in")).read()
        t = re.sub(r"#cmakedefine01\s+(\w+)", r"#define \1 1", t)
        t = t.replace("@VIRG_NEXUS_SIMD_ALIGNMENT@", "64").replace("@VERSION_MAJOR@", "0").replace("@VERSION_MINOR@", "1")
        open(os.path.join(d, "nx_config.h"), "w").write(t)
    return os.path.join(scratch(), "cfg")


def flags(cxx):
    # -I order: generated config first in case the tree's own copy is absent
    f = ["-std=gnu++11" if cxx else "-std=gnu11", "-O1", "-Xclang", "-disable-llvm-passes", "-g",
         "-fno-discard-value-names", "-DNDEBUG", "-DJSMN_PARENT_LINKS=1", "-mavx2", "-w", "-Wno-implicit-function-declaration", "-Wno-int-conversion", "-Wno-implicit-int", "-Wno-incompatible-function-pointer-types",
         "-ffp-contract=off", "-fno-math-errno"] 
    f = [x for x in f if x != "-fno-math-errno"]
    f += ["-I" + os.path.join(REPO, "include"), "-I" + config_include(), "-I/usr/include/cairo",
          "-I/usr/include/libpng16", "-I/usr/include/freetype2", "-I/usr/include/pixman-1"]
    return f


def compile_unit(src, out, extra=()):
    cxx = src.endswith((".cc", ".cpp", ".cxx"))
    _run([CLANGXX if cxx else CLANG] + flags(cxx) + list(extra) + ["-emit-llvm", "-c", src, "-o", out], cwd=scratch())


_lib = {}


def lib_bitcode():
    """Whole-library bitcode plus header unit; returns path."""
    if "lib" in _lib:
        return _lib["lib"]
    units = lib_units()
    d = os.path.join(scratch(), "bc")
    os.makedirs(d, exist_ok=True)
    config_include()
    jobs = [(u, os.path.join(d, "%03d.bc" % i)) for i, u in enumerate(units)]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: compile_unit(*j), jobs))
    out = os.path.join(scratch(), "lib.bc")
    _run([LINK] + [o for _, o in jobs] + ["-o", out])
    _lib["lib"] = out
    _lib["units"] = units
    return out


def _shims():
    p = os.path.join(scratch(), "shims.cc")
    if "shims" not in _lib:
        open(p, "w").write(open(os.path.join(VERIF, "cxx", "shims.cc")).read())
        _lib["shims"] = p
    return p


def cxx_bitcode():
    """C++ interface without exceptions and run-time types, with the C units and the entry points of cxx/shims.cc"""
    if "cxx" in _lib:
        return _lib["cxx"]
    lib_bitcode()
    d = os.path.join(scratch(), "bc")
    bcs, cc = [], []
    for i, u in enumerate(_lib["units"]):
        (cc if u.endswith((".cc", ".cpp")) else bcs).append((u, os.path.join(d, "%03d.bc" % i)))
    jobs = [(u, os.path.join(d, "x%03d.bc" % k)) for k, (u, _) in enumerate(cc)]
    ex = ["-fno-exceptions", "-fno-rtti", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
    from vlib.pvn import Unsupported
    try:
        with ThreadPoolExecutor(8) as pool:
            list(pool.map(lambda j: compile_unit(j[0], j[1], ex), jobs))
    except AnalysisError as e:      # the library itself builds (lib_bitcode): it uses what this view leaves out
        raise Unsupported("C++ units without exceptions: %s" % str(e)[-600:])
    jobs.append((_shims(), os.path.join(d, "xshims.bc")))
    for n in range(40):     # entry points the interface no longer offers are left out: what needs them is undecided
        try:
            compile_unit(jobs[-1][0], jobs[-1][1], ex)
            break
        except AnalysisError as e:
            at = {int(m) for m in re.findall(r"shims\.cc:(\d+):\d+: error", str(e))}
            src = open(jobs[-1][0]).read().split("\n")
            at = {k for k in at if 0 < k <= len(src) and "s_" in src[k - 1]}
            if not at or n == 39:
                raise Unsupported("entry points to the C++ interface: %s" % str(e)[-600:])
            open(jobs[-1][0], "w").write("\n".join("" if k + 1 in at else l for k, l in enumerate(src)))
    out = os.path.join(scratch(), "cxx.bc")
    _run([LINK, header_bitcode()] + [o for _, o in bcs + jobs] + ["-o", out])
    _lib["cxx"] = out
    return out


def headers():
    d = os.path.join(REPO, "include/virg/nexus")
    return sorted(f for f in os.listdir(d) if f.endswith(".h") and f != "nx_config.h")


def header_bitcode():
    """One unit that includes every C header and emits every inline function."""
    if "hdr" in _lib:
        return _lib["hdr"]
    src = os.path.join(scratch(), "all_headers.c")
    with open(src, "w") as f:
        for h in headers():
            f.write('#include "virg/nexus/%s"\n' % h)
    out = os.path.join(scratch(), "hdr.bc")
    compile_unit(src, out, ["-Xclang", "-femit-all-decls"])
    ll = os.path.join(scratch(), "hdr.ll")
    _run([tool(), out, "-externalize", "-ll=" + ll, "-o", "/dev/null"])
    out = ll
    _lib["hdr"] = out
    return out


def single_bitcode(src, extra=(), name=None):
    out = os.path.join(scratch(), (name or os.path.basename(src)) + ".bc")
    compile_unit(src, out, extra)
    return out


def link(bcs, name):
    out = os.path.join(scratch(), name + ".bc")
    _run([LINK] + list(bcs) + ["-o", out])
    return out


def defined_functions(bc):
    o = _run([NM, "--defined-only", "--format=posix", bc])
    return [l.split()[0] for l in o.splitlines() if len(l.split()) > 1 and l.split()[1] in "tTwWvV"]


def dump(bc, name, pipeline="", roots=None, opaque=None, inline_internal=False, scev=False, spec=None, extra=()):
    out = os.path.join(scratch(), name + ".json")
    cmd = [tool(), bc, "-o", out]
    if pipeline:
        cmd += ["-pl=" + pipeline]
    for opt, lst in (("roots", roots), ("opaque", opaque), ("spec", spec)):
        if lst is not None:
            p = os.path.join(scratch(), name + "." + opt)
            open(p, "w").write("\n".join(lst) + "\n")
            cmd += ["-%s=%s" % (opt, p)]
    if inline_internal:
        cmd += ["-inline-internal"]
    if scev:
        cmd += ["-scev"]
    cmd += list(extra)
    _run(cmd)
    with open(out) as f:
        j = json.load(f)
    os.unlink(out)
    return j
