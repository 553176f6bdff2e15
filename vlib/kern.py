"""Shared driver for algebraic-kernel checks: builds the kernel module (library +
inline header functions, each kernel cloned as a root, everything it calls
inlined, constant-trip loops unrolled) and compares PVN results with formulas."""
from . import build, ir
from .pvn import *
from .poly import *

import os, json
from fractions import Fraction
_cache = {}
_SIG = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "signatures.json")))
_fn_of = {}


def base_module():
    """un-normalised module, for signatures"""
    if "bc" not in _cache:
        _cache["bc"] = build.link([build.header_bitcode(), build.lib_bitcode()], "kern")
    return _cache["bc"]


def kernels(specs, opaque=None, name="kern", pipeline=KERNEL_PL, bc=None):
    """specs: list of (alias, function, {argidx: const}); returns Module with functions 'vk$alias'"""
    bc = bc or base_module()
    for a, f, c in specs:
        _fn_of[a] = f
    lines = ["vk$%s %s %s" % (a, f, " ".join("%d=%d" % kv for kv in (c or {}).items())) for a, f, c in specs]
    j = build.dump(bc, name, pipeline=pipeline, roots=[], opaque=opaque, spec=lines, inline_internal=True,
                   extra=["-unroll-threshold=100000"])
    m = ir.Module(j)
    gone = [o for o in opaque or () if o in _SIG and o not in defined(bc)]
    for o in opaque or ():
        f = m.functions.get(o)
        if f is not None and o in _SIG and changed_signature(o, f):
            gone.append(o)
    m.lost_boundary = gone
    return m


def defined(bc):
    """names of the functions the analysed tree defines"""
    if "def" not in _cache:
        _cache["def"] = set(build.defined_functions(bc))
    return _cache["def"]


def changed_signature(name, f):
    """the helper's parameters are no longer those the rules were written for (a renamed parameter is not a change)"""
    sig = _SIG[name]
    got = [a.get("name") or "" for a in f.args]
    if len(sig) != len(got):
        return True
    return sig != got and sorted(sig) == sorted(got)


class Case:
    """One analysed kernel: list of partitions plus helpers to read values."""

    def __init__(self, mod, alias, **kw):
        f = mod.functions.get("vk$" + alias)
        if f is None or f.decl:
            raise Unsupported("function %s is not in the library" % _fn_of.get(alias, alias))
        self.fn = f
        if mod.lost_boundary:
            raise Unsupported("%s: helper functions %s, at which the analysis cuts, were removed or changed" % (_fn_of.get(alias, alias), mod.lost_boundary))
        if _fn_of.get(alias) in _SIG and changed_signature(_fn_of[alias], f):
            raise Unsupported("%s takes other parameters" % _fn_of[alias])
        kw.setdefault("ignore", is_log)
        sig = _SIG.get(_fn_of.get(alias))
        if sig is not None and len(sig) == len(f.args):
            kw.setdefault("argnames", [n or "arg%d" % k for k, n in enumerate(sig)])
        self.p = PVN(mod, f, **kw)
        self.ctx = self.p.ctx
        self.parts = self.p.run()
        if not self.parts:
            raise Unsupported("%s never returns" % alias)

    def V(self, n):
        return R.var(self.ctx, n)

    def K(self, c):
        return R.const(self.ctx, tofrac(c))

    def arr(self, name, n, start=0):
        return [self.V("%s[%d]" % (name, k)) for k in range(start, start + n)]

    def out(self, st, base, k, size, ty="double"):
        return self.p._load(st, st.mem.get(base), base, self.K(k * size), size, ty)

    def outat(self, st, base, off, size, ty="double"):
        return self.p._load(st, st.mem.get(base), base, self.K(off), size, ty)

    def outs(self, st, base, n, size, ty="double"):
        return [self.out(st, base, k, size, ty) for k in range(n)]

    def only_writes(self, rep, st, allowed):
        """every store goes to one of the allowed operands, inside its extent (bytes)"""
        name = self.fn.name[3:]
        bad = []
        for base in st.mem:
            if base.startswith("alloca"):
                continue
            for x in self.written(st, base):
                if base not in allowed or x[0] == "sym" or x[0] < 0 or x[0] + x[1] > allowed[base]:
                    bad.append("%s%r" % (base, x))
        rep.check(not bad, "writes stay in result", name, self.fn.where(), "writes outside the result: %s" % bad[:5])

    def fld(self, base, path, idx=None):
        t = "" if idx is None or (idx.is_const() and idx.cval() == 0) else "{%s}" % idx.show()
        return self.V("%s%s.%s" % (base, t, path))

    def written(self, st, base):
        """byte offsets written below base"""
        s = set()
        e = st.mem.get(base)
        while e is not None:
            if e.off is None:
                s.add(("sym", "loop"))
            elif e.off.is_const():
                s.add((int(e.off.cval()), int(e.size)))
            else:
                s.add(("sym", e.off.show()))
            e = e.prev
        return s


def guard_text(st):
    nm = {1: "<0", 2: "=0", 4: ">0", 3: "<=0", 6: ">=0", 5: "!=0"}
    return ", ".join("%s %s" % (e.show()[:60], nm.get(m, "?")) for e, m in st.cons) or "always"


def sign_of(st, expr):
    """mask of signs that expr may have in this partition (from recorded decisions)"""
    if expr.is_const():
        c = expr.cval()
        return ZERO if c == 0 else POS if c > 0 else NEG
    for e, m in st.cons:
        k = expr.ratio(e)
        if k is not None:
            return m if k > 0 else neg(m)
    return ALL


# ---- difference witnesses: two normal forms that differ are reported only when their values differ somewhere
INTFN = {"idiv", "irem", "floordiv", "shl", "and", "or", "xor", "lshr"}


def _int_syms(ctx, e, out, intc=False):
    for s in e.syms():
        inf = ctx.appinfo.get(s)
        if inf:
            for a in inf[1]:
                if isinstance(a, R):
                    _int_syms(ctx, a, out, inf[0] in INTFN)
        elif intc:
            out.add(s)


def _val(ctx, e, env, rnd, ints):
    def sym(s):
        if s in env:
            return env[s]
        inf = ctx.appinfo.get(s)
        if inf is None:
            v = Fraction(rnd.randint(0, 40)) if s in ints else Fraction(rnd.randint(-4000, 4000), rnd.choice((1, 8, 97)) * 16)
        else:
            a = [_val(ctx, x, env, rnd, ints) if isinstance(x, R) else x for x in inf[1]]
            v = _apply(inf[0], a, s, rnd)
        env[s] = v
        return v

    def poly(p):
        t = 0
        for m, c in p.t.items():
            x = c
            for s, k in m:
                x = x * sym(s) ** k
            t += x
        return t
    return poly(e.n) / poly(e.d)


def _apply(fn, a, s, rnd):
    import math
    if fn == "int" or fn == "trunc":
        return Fraction(int(a[0]))
    if fn in ("floor", "ceil"):
        return Fraction(getattr(math, fn)(a[0]))
    if fn == "round":
        return Fraction(int(abs(a[0]) + Fraction(1, 2)) * (1 if a[0] >= 0 else -1))
    if fn == "idiv":
        q = abs(a[0]) // abs(a[1])
        return Fraction(q if (a[0] < 0) == (a[1] < 0) else -q)
    if fn == "floordiv":
        return Fraction(a[0] // a[1])
    if fn == "irem":
        q = abs(a[0]) % abs(a[1])
        return Fraction(q if a[0] >= 0 else -q)
    if fn == "and":
        return Fraction(int(a[0]) & int(a[1]))
    if fn == "or":
        return Fraction(int(a[0]) | int(a[1]))
    if fn == "xor":
        return Fraction(int(a[0]) ^ int(a[1]))
    if fn == "shl":
        return a[0] * 2 ** int(a[1])
    if fn == "pow":
        return Fraction(float(a[0]) ** float(a[1]))
    if fn in ("sqrt", "sin", "cos", "tan", "exp", "log", "atan", "acos", "asin", "erf", "log10", "log2"):
        return Fraction(getattr(math, fn)(float(a[0])))
    if fn == "atan2":
        return Fraction(math.atan2(float(a[0]), float(a[1])))
    # unknown function: a value that depends only on its arguments
    return Fraction(hash((fn,) + tuple(a)) % 100003, 1009)


def differ(ctx, a, b, cons=()):
    """True: the two expressions take different values somewhere the decisions allow; False: they agreed on every
    assignment tried; None: no assignment satisfying the decisions was found"""
    import random
    rnd = random.Random(1)
    ints = set()
    for e in [a, b] + [c[0] for c in cons]:
        _int_syms(ctx, e, ints)
    hits = 0
    for _ in range(400):
        env = {}
        try:
            ok = True
            for e, m in cons:
                v = _val(ctx, e, env, rnd, ints)
                if not ((ZERO if v == 0 else POS if v > 0 else NEG) & m):
                    ok = False
                    break
            if not ok:
                continue
            x, y = _val(ctx, a, env, rnd, ints), _val(ctx, b, env, rnd, ints)
        except (ZeroDivisionError, ValueError, OverflowError, TypeError):
            continue
        if isinstance(x, complex) or isinstance(y, complex):
            continue
        if abs(x - y) > Fraction(1, 10 ** 5) * max(abs(x), abs(y), Fraction(1, 10 ** 3)):
            return True
        hits += 1
        if hits >= 40:
            break
    return False if hits >= 5 else None


# column-major matrix algebra on lists of R
def mmul3(A, B, n=3):
    return [sum((A[r + n * k] * B[k + n * c] for k in range(n)), start=A[0] * 0) for c in range(n) for r in range(n)]


def mvec(A, v, n=3):
    return [sum((A[r + n * k] * v[k] for k in range(n)), start=A[0] * 0) for r in range(n)]


def transpose(A, n=3):
    return [A[c + n * r] for c in range(n) for r in range(n)]


def det3(A):
    return (A[0] * (A[4] * A[8] - A[7] * A[5]) - A[3] * (A[1] * A[8] - A[7] * A[2]) + A[6] * (A[1] * A[5] - A[4] * A[2]))


def adj3(A):
    m = lambda r, c: A[r + 3 * c]
    out = []
    for c in range(3):
        for r in range(3):
            # adj[r][c] = cofactor(c, r)
            rows = [k for k in range(3) if k != c]
            cols = [k for k in range(3) if k != r]
            v = m(rows[0], cols[0]) * m(rows[1], cols[1]) - m(rows[0], cols[1]) * m(rows[1], cols[0])
            out.append(v if (r + c) % 2 == 0 else -v)
    return out


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    r = a[0] * b[0]
    for x, y in zip(a[1:], b[1:]):
        r = r + x * y
    return r


def qmul(r, s):
    return [r[0] * s[0] - r[1] * s[1] - r[2] * s[2] - r[3] * s[3],
            r[0] * s[1] + r[1] * s[0] + r[2] * s[3] - r[3] * s[2],
            r[0] * s[2] - r[1] * s[3] + r[2] * s[0] + r[3] * s[1],
            r[0] * s[3] + r[1] * s[2] - r[2] * s[1] + r[3] * s[0]]


class Checker:
    """collects obligations of one kernel"""

    def __init__(self, rep, mod):
        self.rep, self.mod = rep, mod

    def kernel(self, alias, spec, **kw):
        """spec(case, st, eq): called for every partition; eq(label, actual, expected)"""
        try:
            c = Case(self.mod, alias, **kw)
            n = 0
            for st in c.parts:
                def eq(label, actual, expected):
                    expected_r = expected if isinstance(expected, R) else c.K(expected)
                    good = isinstance(actual, R) and actual.same(expected_r)
                    inst = "%s: %s" % (alias, label)
                    if good:
                        self.rep.ok("formula", inst, c.fn.where())
                    elif isinstance(actual, R) and differ(c.ctx, actual, expected_r, st.cons) is False:
                        self.rep.undecide(inst, "another form of the definition: %s" % actual.show()[:200])
                    else:
                        a = actual.show() if isinstance(actual, R) else repr(actual)
                        self.rep.violate("formula", inst, c.fn.where(),
                                         "when %s the code computes %s, the definition is %s" % (guard_text(st), a[:300], expected_r.show()[:300]))
                spec(c, st, eq)
            return c
        except Unsupported as e:
            self.rep.undecide(alias, e)
        except ZeroDivisionError:
            self.rep.undecide(alias, "division by a literal zero")


# ---- loops
def stores(rec, st, base=None):
    """stores of one generic iteration: (base, offset, size, value), oldest first"""
    out = []
    for b, e in st.mem.items():
        if b.startswith("alloca") or (base is not None and b != base):
            continue
        stop = rec["mark"].get(b)
        l = []
        while e is not None and e is not stop:
            if e.kind == "store":
                l.append((b, e.off, e.size, e.val))
            else:
                l.append((b, e.off, e.size, e.kind))
            e = e.prev
        out += l[::-1]
    return out


def mentions(e, name):
    import re
    pat = re.compile(r"(?<![A-Za-z0-9_])" + re.escape(name) + r"(?![A-Za-z0-9_])")
    return any(pat.search(v) for v in e.vars())


def linear(e, name):
    """(coefficient, rest) when e = coefficient*name + rest with both free of name, else None"""
    if not e.d.is_const():
        return None
    k = R.var(e.ctx, name)
    # e(k+1) - e(k) by substitution
    c = e.subst({name: k + 1}) - e
    if mentions(c, name):
        return None
    rest = e - c * k
    if mentions(rest, name):
        return None
    return c, rest


def trip_roots(rec, idx=None):
    """for every exit of the loop: the iteration number at which it is taken when it is the counted exit,
    or None for another (early) exit; the flag tells whether the iteration's body stores were performed"""
    kn = next(iter(rec["k"].vars()))
    out = []
    for s in rec["exits"]:
        root = strict = None
        for e, m in s.cons:
            if (e, m) in rec["st0"].cons or not mentions(e, kn):
                continue
            l = linear(e, kn)
            if l is None or not l[0].is_const() or l[0].cval() == 0:
                continue
            if l[1].is_const() and l[1].cval() == 0:
                continue      # k >= 0
            if m & ZERO:
                root = -(l[1] / l[0])
            elif m in (NEG, POS) and l[0].cval() == (1 if m == POS else -1) and l[1].d.is_const() and l[1].d.cval() == 1:
                # a strict inequality of integers, first true one step after the zero
                strict = -(l[1] / l[0]) + 1
        if root is None and strict is None and not rec["latch"]:
            root = rec["k"] * 0     # no path reaches the back edge: every exit is taken in the first iteration
        out.append((s, strict if root is None else root))
    return out


def covers(rec, idx, n, first=0):
    """the loop visits idx = first .. n-1 exactly once each (either direction) and nothing else"""
    kn = next(iter(rec["k"].vars()))
    l = linear(idx, kn)
    if l is None or not l[0].is_const() or abs(l[0].cval()) != 1:
        return "the index does not advance by one per iteration: %s" % idx.show()
    lo = R.const(idx.ctx, first) if not isinstance(first, R) else first
    c0, start = l
    up = c0.cval() == 1
    want = lo if up else n - 1
    if not start.same(want):
        return "the first index is %s" % start.show()
    end = n - 1 if up else lo
    rr = trip_roots(rec)
    if not rr:
        return "the loop has no exit"
    for s, root in rr:
        if root is None:
            return "early exit when %s" % guard_text(s)
        done = bool(stores(rec, s)) or rec.get("body_done", False)
        last = root if done else root - 1
        li = start + c0 * last
        if not li.same(end):
            return "the last index is %s" % li.show()
    return None
