"""Polynomial value numbering: a trace-partitioned forward dataflow analysis of
loop-free SSA code in the domain of rational functions (poly.py).

Every SSA value gets an exact algebraic normal form in terms of the function's
inputs (real-arithmetic semantics; rounding and overflow are outside the
domain); states are partitioned by branch decision and never joined, a decision
being the sign of a rational function.  No solver and no concrete inputs."""
from fractions import Fraction
import time
from .poly import TooBig, Ctx, R, Poly, app, fsqrt, fsin, fcos, tofrac
from . import ir
from .build import AnalysisError

NEG, ZERO, POS = 1, 2, 4
ALL = 7
PRED = {"eq": ZERO, "ne": NEG | POS, "slt": NEG, "sle": NEG | ZERO, "sgt": POS, "sge": POS | ZERO,
        "ult": NEG, "ule": NEG | ZERO, "ugt": POS, "uge": POS | ZERO,
        "oeq": ZERO, "ueq": ZERO, "one": NEG | POS, "une": NEG | POS, "olt": NEG, "ole": NEG | ZERO,
        "ogt": POS, "oge": POS | ZERO}


class Unsupported(Exception):
    pass


class Crash(Unsupported):
    """the path performs an invalid access no execution survives: (what, where)"""


class Ptr:
    __slots__ = ("base", "off")

    def __init__(self, base, off):
        self.base = base
        self.off = off

    def __repr__(self):
        return "&%s+%s" % (self.base, self.off)


class Cond:
    """sign condition on a rational function, or boolean combination"""
    __slots__ = ("k", "a", "b")

    def __init__(self, k, a, b=None):
        self.k, self.a, self.b = k, a, b


class Agg:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class Entry:
    __slots__ = ("kind", "off", "size", "val", "prev", "rec", "coff")

    def __init__(self, kind, off, size, val, prev, rec=None):
        self.coff = off.cval() if isinstance(off, R) and off.is_const() else None
        self.kind, self.off, self.size, self.val, self.prev, self.rec = kind, off, size, val, prev, rec


class State:
    __slots__ = ("vals", "mem", "cons", "events", "ret", "trail", "exit_of")

    def clone(self):
        s = State()
        s.vals = dict(self.vals)
        s.mem = dict(self.mem)
        s.cons = list(self.cons)
        s.events = list(self.events)
        s.ret = self.ret
        s.trail = list(self.trail)
        s.exit_of = self.exit_of
        return s


def neg(mask):
    return ((mask & NEG) << 2) | (mask & ZERO) | ((mask & POS) >> 2)


def narrow(v, w, signed):
    if v.denominator != 1 or w < 2:
        return v
    x = int(v) & ((1 << w) - 1)
    return x - (1 << w) if signed and x >> (w - 1) else x


class PVN:
    def __init__(self, mod, fn, ctx=None, argnames=None, opaque=None, ignore=None, max_parts=4000, argvals=None, pre=None, deadline=90, init=None, unroll=False, distinct=False):
        self.mod = mod
        self.fn = fn
        self.ctx = ctx or Ctx()
        self.opaque = opaque or {}
        self.ignore = ignore or (lambda name: False)
        self.max_parts = max_parts
        self.argnames = argnames or [a["name"] or "arg%d" % k for k, a in enumerate(fn.args)]
        self.argvals = argvals or {}
        self.distinct = distinct # differently named objects have different addresses
        self.laps = 300          # bound on visits of one block along a path
        self.unroll = unroll     # sizes are constants: follow every loop
        self.init = init         # function: PVN, State -> presets memory
        self.pre = pre           # function: PVN -> preconditions [(expr, sign mask)]
        self.deadline = time.monotonic() + deadline
        self.parts = []
        self.dead = []           # (state, callee): paths ended by a function that does not return
        self.rom = {}            # constant tables: base -> function(offset, size)
        self.exists = set()      # objects known to exist (never null)
        self.frame = ""          # distinguishes the activations of a routine
        self.depth = 0
        self.nframes = [0]
        self.follow = False      # evaluate calls of defined routines that were not inlined
        self.varargs = None      # values and sizes of the variable arguments
        self.start = None        # initial state of a called routine
        self.guard = None        # called for every memory access: guard(pvn, state, pointer, size, kind)
        self.cur = None          # instruction being evaluated
        self.steps = 0
        self.iters = []          # summarised loops
        self.base_struct = {}    # pointer base -> DI struct of the pointee
        self.base_size = {}
        self.nfresh = 0
        self._loops = None
        self.regions = []        # stack of loop regions being summarised
        di = fn.ditypes[1:] if fn.ditypes else []
        if len(di) == len(fn.args):
            for k, t in enumerate(di):
                self.note_ptr_type(self.argnames[k], t)

    # ---- helpers
    def K(self, c):
        return R.const(self.ctx, c)

    def V(self, name):
        return R.var(self.ctx, name)

    def note_ptr_type(self, base, t):
        t = ir.strip_di(t)
        if t and t[0] == "ptr":
            t = ir.strip_di(t[-1])
            if t and t[0] in ("struct", "union"):
                d = self.mod.di.get((t[0], t[1]))
                if d and not d["fwd"] and d["size"]:
                    self.base_struct[base] = d

    def field_path(self, d, off, size):
        """(path text, DI type) of the member of DI composite d that holds byte off"""
        for e in d["els"]:
            if e[1] <= off < e[1] + max(e[2], 1):
                t = ir.strip_di(e[3])
                o = off - e[1]
                path = e[0]
                while t and t[0] == "array":
                    et = ir.strip_di(t[2])
                    n = t[1] or 1
                    es = e[2] // n if n else e[2]
                    if et[0] == "array" or not es:
                        break
                    path += "[%d]" % (o // es)
                    o %= es
                    t = et
                if t and t[0] == "struct" and (o or e[2] != size or True):
                    sub = self.mod.di.get(("struct", t[1]))
                    if sub and not sub["fwd"] and sub["els"]:
                        p, t2 = self.field_path(sub, o, size)
                        return path + "." + p, t2
                if o:
                    path += "@%d" % o
                return path, t
        return "@%d" % off, None

    def symname(self, base, off, size):
        return self.symname_t(base, off, size)[0]

    def symname_t(self, base, off, size):
        d = self.base_struct.get(base)
        if d is not None and off.d.is_const():
            c = off.n.cval() / off.d.cval() if not off.is_const() else off.cval()
            if c.denominator == 1:
                sz = d["size"]
                c = int(c)
                rest = (off - c) + (c // sz) * sz
                path, t = self.field_path(d, c % sz, size)
                idx = rest / self.K(sz)
                tag = "" if (idx.is_const() and idx.cval() == 0) else "{%s}" % idx.show()
                return "%s%s.%s" % (base, tag, path), t
        fs = self.base_size.setdefault(base, size)
        suf = "" if fs == size else ":%d" % size
        if off.is_const():
            o = off.cval()
            if o.denominator == 1 and o % size == 0:
                return "%s[%d]%s" % (base, o // size, suf), None
            return "%s@%s%s" % (base, o, suf), None
        return "%s[%s]%s" % (base, (off / self.K(size)).show(), suf), None

    def load(self, st, p, size, ty):
        if not isinstance(p, Ptr):
            raise Unsupported("load through non-pointer value")
        if self.guard:
            self.guard(self, st, p, size, "read")
        e = st.mem.get(p.base)
        return self._load(st, e, p.base, p.off, size, ty)

    def low(self, v):
        """the low 32 bits of eight bytes, when they are known"""
        if v.is_const():
            return self.K(narrow(v.cval(), 32, True)) if v.cval().denominator == 1 else None
        if len(v.n.t) == 1 and v.d.is_const():
            (m, c), = v.n.t.items()
            inf = self.ctx.appinfo.get(m[0][0]) if len(m) == 1 and m[0][1] == 1 and c == v.d.cval() else None
            if inf and inf[0] == "join32":
                return inf[1][0]
        return None

    def _load(self, st, e, base, off, size, ty):
        oc = off.cval() if off.is_const() else None
        while e is not None:
            if oc is not None and e.coff is not None and e.kind in ("store", "zero", "fill", "copy"):
                # both places are constants and lie apart
                d = oc - e.coff
                if d >= e.size or d <= -size:
                    e = e.prev
                    continue
            if e.kind == "havoc":
                return self.fresh_load(e, base, off, size, ty)
            if e.kind == "fn":
                return e.val(off, size, ty)
            if e.kind in ("vcopy", "vset"):
                raise Unsupported("load below a variable-size block write of %s" % base)
            d = off - e.off
            if not d.is_const():
                if e.kind == "store":
                    # distinct symbolic addresses: decided only if equal; otherwise unknown
                    raise Unsupported("possible alias between symbolic addresses %s and %s of %s" % (off.show(), e.off.show(), base))
                raise Unsupported("symbolic address into block write of %s" % base)
            d = d.cval()
            if d >= e.size or d <= -size:
                e = e.prev
                continue
            if e.kind == "store":
                if d == 0 and size == e.size:
                    return e.val
                if self.unroll and d == 0 and isinstance(e.val, R):
                    # a word of a union: the two halves of eight bytes
                    if size == 4 and e.size == 8 and ty == "i32":
                        v = self.low(e.val)
                        if v is not None:
                            return v
                    if size == 8 and e.size == 4 and ty == "i64":
                        hi = self._load(st, e.prev, base, off + 4, 4, "i32")
                        if isinstance(hi, R):
                            if e.val.is_const() and hi.is_const():
                                return self.K((int(hi.cval()) << 32) + (int(e.val.cval()) & 0xffffffff))
                            return app(self.ctx, "join32", e.val, hi)
                if self.unroll and isinstance(e.val, R) and e.val.is_const():
                    if d == -4 and size == 8 and e.size == 4 and ty == "i64":
                        lo = self._load(st, e.prev, base, off, 4, "i32")
                        if isinstance(lo, R) and lo.is_const():
                            return self.K((int(e.val.cval()) << 32) + (int(lo.cval()) & 0xffffffff))
                    if d == 4 and size == 4 and e.size == 8 and ty == "i32":
                        v = int(e.val.cval()) >> 32 & 0xffffffff
                        return self.K(v - (1 << 32) if v >> 31 else v)
                raise Unsupported("partial overlap in %s" % base)
            if d < 0 or d + size > e.size:
                raise Unsupported("load straddles a block write of %s" % base)
            if e.kind == "zero":
                return self.zero(ty)
            if e.kind == "fill" and size == 1:
                return e.val
            if e.kind == "copy":
                sb, so, snap = e.val
                return self._load(st, snap, sb, so + d, size, ty)
            raise Unsupported(e.kind)
        if base.startswith("@") and off.is_const():
            c = self.global_const(base[1:], int(off.cval()), size, ty)
            if c is not None:
                return c
        if base in self.rom:
            return self.rom[base](self, off, size)
        if base.startswith("alloca"):
            return R.var(self.ctx, "UNINIT:%s" % self.symname(base, off, size))
        nm, t = self.symname_t(base, off, size)
        if ty == "ptr":
            if t is not None:
                self.note_ptr_type("*" + nm, t)
            return Ptr("*" + nm, self.K(0))
        return R.var(self.ctx, nm)

    def fresh_load(self, e, base, off, size, ty):
        nm, t = self.symname_t(base, off, size)
        nm = "%s~%s" % (nm, e.val)
        if ty == "ptr":
            if t is not None:
                self.note_ptr_type("*" + nm, t)
            return Ptr("*" + nm, self.K(0))
        return R.var(self.ctx, nm)

    def zero(self, ty):
        if ty == "ptr":
            return Ptr("null", self.K(0))
        return self.K(0)

    inits = False   # contents of a variable no store has touched: its initialiser

    def global_const(self, name, off, size, ty):
        g = self.mod.globals.get(name)
        if not g or not (g["const"] or self.inits) or "init" not in g:
            return None
        try:
            return self._gc(g["init"], g["ty"], off, size, ty)
        except Unsupported:
            return None

    def _gc(self, init, gty, off, size, ty):
        if init[0] == "zero":
            return self.zero(ty)
        if init[0] == "str" and size == 1:
            return self.K(init[1][off])
        if init[0] == "agg":
            els = init[1]
            # homogeneous scalar arrays only
            leaf = els[0]
            if leaf[0] in ("i", "f", "null", "g", "fn") and off % size == 0:
                return self.operand(None, els[off // size])
            if leaf[0] in ("agg", "str"):
                n = len(leaf[1])
                inner = size * n if leaf[0] == "agg" else n
                return self._gc(els[off // inner], gty, off % inner, size, ty)
        raise Unsupported("global initialiser")

    def store(self, st, p, size, v):
        if not isinstance(p, Ptr):
            raise Unsupported("store through non-pointer")
        if self.guard:
            self.guard(self, st, p, size, "write")
        st.mem[p.base] = Entry("store", p.off, size, v, st.mem.get(p.base))

    def operand(self, st, o):
        k = o[0]
        if k == "v":
            return st.vals[o[1]]
        if k == "i":
            return self.K(int(o[1]))
        if k == "f":
            try:
                return self.K(tofrac(ir.fconst(o)))
            except OverflowError:
                return R.var(self.ctx, "const:%s" % ir.fconst(o))
        if k == "null":
            return Ptr("null", self.K(0))
        if k == "undef":
            return R.var(self.ctx, "UNDEF")
        if k in ("g", "fn"):
            return Ptr("@" + o[1], self.K(0))
        if k == "ce" and o[1] == "getelementptr" and len(o) > 3:
            b = self.operand(st, o[2][0])
            return Ptr(b.base, b.off + o[3])
        if k == "zero":
            return self.K(0)
        raise Unsupported("operand %s" % k)

    # ---- conditions
    def cond_of(self, v):
        if isinstance(v, Cond):
            return v
        if isinstance(v, R):
            # integer used as truth value
            return Cond("sign", v, NEG | POS)
        raise Unsupported("condition of %r" % (v,))

    def assume(self, cons, expr, mask):
        """constraint list with sign(expr) in mask added, or None if contradictory"""
        if expr.is_const():
            c = expr.cval()
            s = ZERO if c == 0 else POS if c > 0 else NEG
            return cons if s & mask else None
        out = []
        merged = False
        for e, m in cons:
            if not merged:
                k = e.ratio(expr)
                if k is not None:
                    mm = m & (mask if k > 0 else neg(mask))
                    if not mm:
                        return None
                    out.append((e, mm))
                    merged = True
                    continue
                # difference by constants: x > c1 vs x > c2
            out.append((e, m))
        if not merged:
            out.append((expr, mask))
            if not self.feasible_consts(out):
                return None
        else:
            if not self.feasible_consts(out):
                return None
        return out

    def sign_under(self, cons, expr):
        """signs expr may have under the recorded decisions"""
        if expr.is_const():
            c = expr.cval()
            return ZERO if c == 0 else POS if c > 0 else NEG
        out = 0
        for m in (NEG, ZERO, POS):
            if self.assume(cons, expr, m) is not None:
                out |= m
        return out

    def feasible_consts(self, cons):
        """interval consistency for constraints that differ by a constant from the same form"""
        lo, hi = {}, {}
        for e, m in cons:
            if not e.d.is_const():
                continue
            n = e.n
            c = n.cval()
            body = Poly({k: v for k, v in n.t.items() if k != ()})
            if not body.t:
                continue
            lead = max(body.t)
            s = body.t[lead]
            key = tuple(sorted((k, v / s) for k, v in body.t.items()))
            bound = -c / s
            mm = m if s > 0 else neg(m)
            # body/s - bound has sign in mm
            if mm == POS or mm == (POS | ZERO) or mm == ZERO:
                st = mm == POS
                if key not in lo or (bound, st) > lo[key]:
                    lo[key] = (bound, st)
            if mm == NEG or mm == (NEG | ZERO) or mm == ZERO:
                st = mm == NEG
                if key not in hi or (-bound, st) > (-hi[key][0], hi[key][1]):
                    hi[key] = (bound, st)
        for k in lo:
            if k in hi:
                a, sa = lo[k]
                b, sb = hi[k]
                if a > b or (a == b and (sa or sb)):
                    return False
        return True

    def split(self, cons, c, want):
        """list of constraint lists under which condition c has truth value want"""
        if c.k == "const":
            return [cons] if c.a == want else []
        if c.k == "sign":
            m = c.b if want else ALL & ~c.b
            if not m:
                return []
            r = self.assume(cons, c.a, m)
            return [r] if r is not None else []
        if c.k == "not":
            return self.split(cons, c.a, not want)
        if c.k in ("and", "or"):
            if (c.k == "and") == want:
                out = []
                for x in self.split(cons, c.a, want):
                    out += self.split(x, c.b, want)
                return out
            out = list(self.split(cons, c.a, want))
            for x in self.split(cons, c.a, not want):
                out += self.split(x, c.b, want)
            return out
        if c.k == "xor":
            out = []
            for w in (True, False):
                for x in self.split(cons, c.a, w):
                    out += self.split(x, c.b, w != want)
            return out
        raise Unsupported(c.k)

    # ---- main
    def run(self):
        try:
            return self.run1()
        except TooBig:
            raise Unsupported("value too large")

    def run1(self):
        st = State()
        st.vals, st.mem, st.cons, st.events, st.ret, st.trail, st.exit_of = {}, {}, [], [], None, [], None
        for k, a in enumerate(self.fn.args):
            if k in self.argvals:
                v = self.argvals[k]
            elif a["ty"] == "ptr":
                v = Ptr(self.argnames[k], self.K(0))
            elif a["ty"].startswith("<"):
                raise Unsupported("vector argument")
            else:
                v = self.V(self.argnames[k])
            st.vals[a["id"]] = v
        if self.init:
            self.init(self, st)
        for e, m in (self.pre(self) if self.pre else []):
            st.cons = self.assume(st.cons, e, m)
        if self.start is not None:
            st.mem, st.cons, st.events = self.start.mem, self.start.cons, self.start.events
        work = [(self.fn.blocks[0], None, st, 0)]
        while work:
            b, prev, st, start = work.pop()
            self.steps += 1
            if self.steps > 200000 or len(self.parts) + len(work) > self.max_parts:
                raise Unsupported("too many partitions")
            self.block(b, prev, st, start, work)
        return self.parts

    # ---- loops: one generic iteration
    def loops(self):
        if self._loops is None:
            fn = self.fn
            L = {}
            reach = {b.id for b in fn.rpo()}
            for b in fn.blocks:
                if b.id not in reach:
                    continue
                for s in b.succs:
                    if fn.dominates(s, b):
                        body = L.setdefault(s.id, {s.id})
                        stack = [b]
                        while stack:
                            x = stack.pop()
                            if x.id not in body:
                                body.add(x.id)
                                stack += [p for p in x.preds if p.id in reach]
            self._loops = L
        return self._loops

    def goto(self, tgt, b, st, work):
        if self.regions:
            h, body, latch, exits = self.regions[-1]
            if tgt.id == h:
                latch.append((b, st))
                return
            if tgt.id not in body:
                exits.append((tgt, b, st))
                return
        L = self.loops()
        if tgt.id in L and b.id not in L[tgt.id] and not self.unroll and not self.const_trip(tgt, b, st):
            self.summarise(tgt, b, st, work)
            return
        work.append((tgt, b, st, 0))

    def const_trip(self, head, prev, st):
        """exit test compares an induction value of constant start with a constant: unrolled, not summarised"""
        fn = self.fn
        body = self.loops()[head.id]
        ph = {p.id: p for p in self.phis(head)}

        def chase(o, depth=0):
            if o[0] == "i":
                return "const"
            if o[0] != "v" or depth > 6:
                return None
            if o[1] in ph:
                try:
                    e = self.inc_from(st, ph[o[1]], prev)
                except Unsupported:
                    return None
                ok = (isinstance(e, R) and e.is_const()) or (isinstance(e, Ptr) and e.off.is_const())
                return "iv" if ok else None
            i = fn.val.get(o[1])
            if i is None or i.block.id not in body:
                v = st.vals.get(o[1])
                if isinstance(v, R) and v.is_const():
                    return "const"
                if isinstance(v, Ptr) and v.off.is_const():
                    return "const"
                return None
            if i.op in ("add", "sub", "zext", "sext", "trunc", "getelementptr", "mul", "shl"):
                if i.op == "getelementptr":
                    ks = [chase(i.ops[0], depth + 1)] + [chase(x[3], depth + 1) for x in i.d["steps"] if x[0] != "s"]
                else:
                    ks = [chase(x, depth + 1) for x in i.ops]
                if None in ks:
                    return None
                return "iv" if "iv" in ks else "const"
            return None
        for bid in body:
            t = fn.blocks[bid].term
            if t.op == "br" and t.ops and any(x not in body for x in t.succ):
                c = t.ops[0]
                ci = fn.val.get(c[1]) if c[0] == "v" else None
                if ci is not None and ci.op == "icmp":
                    k = [chase(x) for x in ci.ops]
                    if None not in k and "iv" in k:
                        return True
        return False

    def phis(self, b):
        out = []
        for i in b.ins:
            if i.op != "phi":
                break
            out.append(i)
        return out

    def inc_from(self, st, phi, prev):
        for v, p in phi.d["inc"]:
            if p == prev.id:
                return self.operand(st, v)
        raise Unsupported("phi without incoming value")

    def region(self, head, st):
        """run one iteration from the header (phis already set); (latch states, exits)"""
        latch, exits = [], []
        self.regions.append((head.id, self.loops()[head.id], latch, exits))
        work = [(head, None, st, 0)]
        try:
            while work:
                b, prev, s, start = work.pop()
                self.steps += 1
                if self.steps > 200000 or len(latch) + len(exits) + len(work) > self.max_parts:
                    raise Unsupported("too many partitions")
                self.block(b, prev, s, start, work)
        finally:
            self.regions.pop()
        return latch, exits

    def summarise(self, head, prev, st, work):
        self.nfresh += 1
        n = self.nfresh
        if n > 400:
            raise Unsupported("too many loop summaries")
        phis = self.phis(head)
        entry = {p.id: self.inc_from(st, p, prev) for p in phis}
        # phase 1: unknown iteration state, to find steps and written memory
        saved = len(self.iters)
        nparts = len(self.parts)
        s1 = st.clone()
        s1.trail = []
        tag = "L%d_" % n
        sym = {}
        for p in phis:
            e = entry[p.id]
            v = R.var(self.ctx, "%s%d" % (tag, p.id))
            sym[p.id] = v
            if isinstance(e, Ptr):
                s1.vals[p.id] = Ptr(e.base, v)
            elif isinstance(e, R):
                s1.vals[p.id] = v
            elif isinstance(e, Cond):
                s1.vals[p.id] = Cond("sign", v, NEG | POS)
            else:
                raise Unsupported("loop-carried aggregate")
        written = set()
        # memory written in the loop is unknown at iteration start: iterate to a fixed point of bases
        for _ in range(6):
            s2 = s1.clone()
            for w in written:
                s2.mem[w] = Entry("havoc", None, None, "%si" % tag, None)
            before = dict(s2.mem)
            latch, exits = self.region(head, s2)
            new = set(written)
            for b, s in latch + [(b, s) for _, b, s in exits]:
                for base, e in s.mem.items():
                    if before.get(base) is not e:
                        new.add(base)
            if new == written:
                break
            written = new
        del self.iters[saved:]
        del self.parts[nparts:]
        steps = {}
        for p in phis:
            e = entry[p.id]
            deltas = []
            for b, s in latch:
                v = self.inc_from(s, p, b)
                if isinstance(e, Ptr):
                    if not isinstance(v, Ptr) or v.base != e.base:
                        deltas = None
                        break
                    v = v.off
                if not isinstance(v, R):
                    deltas = None
                    break
                deltas.append(v - sym[p.id])
            if deltas is None and isinstance(e, Ptr):
                raise Unsupported("pointer changes object in a loop")
            stp = None
            eo = e.off if isinstance(e, Ptr) else e
            if deltas and isinstance(eo, R) and all(d.same(0) or (d + sym[p.id]).same(eo) for d in deltas):
                steps[p.id] = self.K(0)      # re-established with its entry value on every way round
                continue
            if deltas and all(d.same(deltas[0]) for d in deltas) and not any(tag in x for x in deltas[0].vars()):
                stp = deltas[0]
            steps[p.id] = stp
        # phase 2: the k-th iteration
        k = R.var(self.ctx, "k%d" % n)
        s3 = st.clone()
        s3.trail = []
        it = {}
        for p in phis:
            e = entry[p.id]
            if steps[p.id] is not None:
                eo = e.off if isinstance(e, Ptr) else e
                v = eo + steps[p.id] * k
                s3.vals[p.id] = Ptr(e.base, v) if isinstance(e, Ptr) else v
            else:
                v = R.var(self.ctx, "acc%d_%d" % (n, p.id))
                s3.vals[p.id] = Ptr(e.base, v) if isinstance(e, Ptr) else Cond("sign", v, NEG | POS) if isinstance(e, Cond) else v
            it[p.id] = s3.vals[p.id]
        for w in written:
            s3.mem.pop(w, None)
        c = self.assume(s3.cons, k, POS | ZERO)
        if c is not None:
            s3.cons = c
        mark = dict(s3.mem)
        # bounds that hold on entry and that every iteration re-establishes are inductive
        inv = []
        l1, x1 = None, None
        accp = [p for p in phis if steps[p.id] is None and isinstance(it[p.id], R)]
        sv_i, sv_p = len(self.iters), len(self.parts)
        if accp:
            l1, x1 = self.region(head, s3.clone())
            for p in accp:
                if not isinstance(entry[p.id], R):
                    continue
                cands = []
                for b, s in l1[:1]:
                    nv = self.inc_from(s, p, b)
                    if not isinstance(nv, R) or nv.is_const():
                        continue
                    for e, m in s.cons:
                        for a in (1, -1):
                            rest = e - nv * a
                            if not any(("acc%d_" % n) in x or ("k%d" % n) in x for x in rest.vars()):
                                cands.append((a, rest, m))
                for a, rest, m in cands:
                    if self.sign_under(st.cons, entry[p.id] * a + rest) & ~m:
                        continue
                    ok = True
                    for b, s in l1:
                        nv = self.inc_from(s, p, b)
                        if not isinstance(nv, R):
                            ok = False
                        else:
                            x = nv * a + rest
                            if nv.same(it[p.id]):
                                continue      # unchanged: the bound is preserved
                            if self.sign_under(s.cons, x) & ~m:
                                ok = False
                    if ok:
                        inv.append((it[p.id] * a + rest, m))
        if inv:
            for e, m in inv:
                c = self.assume(s3.cons, e, m)
                if c is not None:
                    s3.cons = c
        del self.iters[sv_i:]
        del self.parts[sv_p:]
        latch, exits = self.region(head, s3)
        rec = dict(n=n, head=head, k=k, entry=entry, at=it, steps=steps, written=written, st0=st, mark=mark, latch=[s for _, s in latch],
                   latch_vals=[{p.id: self.inc_from(s, p, b) for p in phis} for b, s in latch],
                   exits=[s for _, _, s in exits], depth=len(self.regions), where=head.term.where(), phis=[p.id for p in phis])
        for s in rec["latch"]:
            s.ret = None
        self.iters.append(rec)
        for tgt, b, s in exits:
            s = s.clone()
            s.exit_of = n
            for w in written:
                # entry summarising the loop; what lay below it stays reachable for coverage queries
                s.mem[w] = Entry("havoc", None, None, "after%d" % n, st.mem.get(w), rec)
            self.goto(tgt, b, s, work)

    def block(self, b, prev, st, start, work):
        if time.monotonic() > self.deadline:
            raise Unsupported("analysis budget for one routine exhausted")
        if start == 0 and prev is not None:
            st.trail.append(b.id)
            if st.trail.count(b.id) > self.laps:
                raise Unsupported("loop not unrolled in %s" % self.fn.name)
            newv = {}
            for i in b.ins:
                if i.op != "phi":
                    break
                for v, p in i.d["inc"]:
                    if p == prev.id:
                        newv[i.id] = self.operand(st, v)
                        break
            st.vals.update(newv)
        for i in b.ins[start:]:
            if i.op == "phi":
                continue
            if i.op == "br":
                if not i.ops:
                    self.goto(self.fn.blocks[i.succ[0]], b, st, work)
                    return
                self.branch(i, self.cond_of(self.operand(st, i.ops[0])), st, b, work)
                return
            if i.op == "switch":
                v = self.operand(st, i.ops[0])
                cons = st.cons
                rest = [cons]
                for cv, tgt in i.d["cases"]:
                    nxt = []
                    for c in rest:
                        r = self.assume(c, v - cv, ZERO)
                        if r is not None:
                            s2 = st.clone()
                            s2.cons = r
                            self.goto(self.fn.blocks[tgt], b, s2, work)
                        r = self.assume(c, v - cv, NEG | POS)
                        if r is not None:
                            nxt.append(r)
                    rest = nxt
                for c in rest:
                    s2 = st.clone()
                    s2.cons = c
                    self.goto(self.fn.blocks[i.d["default"]], b, s2, work)
                return
            if i.op == "ret":
                st.ret = self.operand(st, i.ops[0]) if i.ops else None
                self.parts.append(st)
                return
            if i.op == "unreachable":
                return
            self.cur = i
            r = self.instr(i, st)
            if isinstance(r, list):
                # forked: list of (constraints, value), or (state, value) after a call
                for c, v in r:
                    s2 = st.clone()
                    if isinstance(c, State):
                        s2.mem, s2.cons, s2.events = c.mem, c.cons, c.events
                    else:
                        s2.cons = c
                    s2.vals[i.id] = v
                    work.append((b, prev, s2, i.idx + 1))
                return
            if r is not None:
                st.vals[i.id] = r
            if i.is_call() and (i.d.get("noreturn") or (i.callee in self.mod.functions and self.mod.functions[i.callee].noreturn)):
                self.dead.append((st, i.callee, i.where()))
                return

    def branch(self, i, c, st, b, work):
        for want, tgt in ((True, i.succ[0]), (False, i.succ[1])):
            for cons in self.split(st.cons, c, want):
                s2 = st.clone()
                s2.cons = cons
                self.goto(self.fn.blocks[tgt], b, s2, work)

    def cmp(self, a, b, pred):
        if pred in ("ord", "uno"):
            return Cond("const", pred == "ord")
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                if isinstance(a, R) and a.is_const() and a.cval() == 0:
                    a = Ptr("null", self.K(0))
                elif isinstance(b, R) and b.is_const() and b.cval() == 0:
                    b = Ptr("null", self.K(0))
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                raise Unsupported("pointer/int comparison")
            if a.base == b.base:
                return Cond("sign", a.off - b.off, self.pmask(pred))
            if "null" in (a.base, b.base):
                x = b if a.base == "null" else a
                if x.base.startswith(("alloca", "@", "heap")) or x.base in self.exists:
                    return Cond("const", pred == "ne")
                e = R.var(self.ctx, "nonnull:" + x.base)
                return Cond("sign", e, ZERO if pred == "eq" else NEG | POS)
            if self.distinct and pred in ("eq", "ne"):
                return Cond("const", pred == "ne")
            raise Unsupported("comparison of unrelated pointers")
        if isinstance(a, Cond) or isinstance(b, Cond):
            if isinstance(b, R) and b.is_const():
                t = b.cval() != 0
                c = a
                return c if (pred == "ne") != t else Cond("not", c)
            raise Unsupported("comparison of conditions")
        return Cond("sign", a - b, self.pmask(pred))

    def pmask(self, pred):
        if pred in PRED:
            return PRED[pred]
        if pred.startswith("u") and "o" + pred[1:] in PRED:
            return PRED["o" + pred[1:]]
        raise Unsupported("predicate " + pred)

    def asnum(self, st, v):
        """numeric view of a condition: fork"""
        return v

    def instr(self, i, st):
        op = i.op
        O = lambda k: self.operand(st, i.ops[k])
        if op == "alloca":
            return Ptr("alloca%s%d:%s" % (self.frame, i.id, i.d.get("nm", "")), self.K(0))
        if op == "load":
            if i.ty.startswith("<"):
                raise Unsupported("vector load")
            return self.load(st, O(0), i.d["sz"], i.ty)
        if op == "store":
            v = O(0)
            self.store(st, O(1), i.d["sz"], v)
            return None
        if op == "getelementptr":
            p = O(0)
            if not isinstance(p, Ptr):
                raise Unsupported("gep of non-pointer")
            off = p.off
            for s in i.d["steps"]:
                if s[0] == "s":
                    off = off + s[3]
                else:
                    ix = self.operand(st, s[3])
                    if not isinstance(ix, R):
                        raise Unsupported("gep index")
                    off = off + ix * s[2]
            return Ptr(p.base, off)
        if op in ("fadd", "add", "fsub", "sub", "fmul", "mul"):
            a, b = O(0), O(1)
            if i.ty == "i1" or isinstance(a, Cond) or isinstance(b, Cond):
                return self.condnum(i, st, a, b)
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base:
                return a.off - b.off
            if not isinstance(a, R) or not isinstance(b, R):
                raise Unsupported("arithmetic on pointers")
            return a + b if op.endswith("add") else a - b if op.endswith("sub") else a * b
        if op == "fneg":
            return -O(0)
        if op == "fdiv":
            a, b = O(0), O(1)
            if b.is_const() and b.cval() == 0:
                return app(self.ctx, "divzero", a)
            return a / b
        if op in ("sdiv", "udiv"):
            a, b = O(0), O(1)
            if a.is_const() and b.is_const() and b.cval():
                q = abs(a.cval()) // abs(b.cval())
                return self.K(q if (a.cval() < 0) == (b.cval() < 0) else -q)
            return app(self.ctx, "idiv", a, b)
        if op in ("srem", "urem"):
            a, b = O(0), O(1)
            if a.is_const() and b.is_const() and b.cval():
                q = abs(a.cval()) % abs(b.cval())
                return self.K(q if a.cval() >= 0 else -q)
            return app(self.ctx, "irem", a, b)
        if op == "shl":
            a, b = O(0), O(1)
            if b.is_const():
                return a * (1 << int(b.cval()))
            return app(self.ctx, "shl", a, b)
        if op in ("lshr", "ashr", "and", "or", "xor"):
            a, b = O(0), O(1)
            if isinstance(a, Cond) or isinstance(b, Cond) or i.ty == "i1":
                a = a if isinstance(a, Cond) else Cond("const", a.cval() != 0)
                b = b if isinstance(b, Cond) else Cond("const", b.cval() != 0)
                return Cond(op, a, b)
            if a.is_const() and b.is_const():
                x, y = int(a.cval()), int(b.cval())
                if op == "lshr" and x < 0:
                    x += 1 << int(i.ty[1:])
                return self.K({"lshr": lambda: x >> y, "ashr": lambda: x >> y, "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y}[op]())
            if op == "lshr" and b.is_const():
                return app(self.ctx, "idiv", a, self.K(1 << int(b.cval())))
            if op == "ashr" and b.is_const():
                if self.nonneg_form(a) or not self.sign_under(st.cons, a) & NEG:
                    return app(self.ctx, "idiv", a, self.K(1 << int(b.cval())))
                return app(self.ctx, "floordiv", a, self.K(1 << int(b.cval())))
            if op == "or" and (b.is_const() or a.is_const()) and i.d.get("disjoint"):
                return a + b
            return app(self.ctx, op, a, b)
        if op in ("icmp", "fcmp"):
            p = i.d["pred"]
            if p == "true":
                return Cond("const", True)
            if p == "false":
                return Cond("const", False)
            a, b = O(0), O(1)
            if op == "icmp" and isinstance(a, R) and isinstance(b, R) and a.is_const() and b.is_const():
                w = self.width(i.ops[0]) or self.width(i.ops[1])
                if w and w <= 16:
                    a, b = self.K(narrow(a.cval(), w, p[0] != "u")), self.K(narrow(b.cval(), w, p[0] != "u"))
            return self.cmp(a, b, p)
        if op == "select":
            c = O(0)
            a, b = O(1), O(2)
            if isinstance(c, R):
                return a if c.cval() else b
            out = []
            for want, v in ((True, a), (False, b)):
                for cons in self.split(st.cons, c, want):
                    out.append((cons, v))
            return out
        if op in ("fpext", "fptrunc", "sext", "bitcast", "freeze"):
            v = O(0)
            if isinstance(v, Cond) and op == "sext":
                return self.fork_bool(st, v, -1)
            if op == "sext":
                return self.widen(i, st, v, True)
            return v
        if op in ("zext",):
            v = O(0)
            if isinstance(v, Cond):
                return self.fork_bool(st, v, 1)
            return self.widen(i, st, v, False)
        if op == "trunc":
            v = O(0)
            if i.ty == "i1":
                return Cond("sign", v, NEG | POS) if isinstance(v, R) else v
            if isinstance(v, R) and v.is_const():
                w = int(i.ty[1:])
                x = int(v.cval()) & ((1 << w) - 1)
                if x >= 1 << (w - 1):
                    x -= 1 << w
                return self.K(x)
            if i.ty == "i32" and isinstance(v, R):
                w = self.low(v)
                if w is not None:
                    return w
            if self.trunc_transparent(i):
                return v
            return app(self.ctx, "trunc_" + i.ty, v)
        if op in ("sitofp", "uitofp"):
            v = O(0)
            if isinstance(v, Cond):
                return self.fork_bool(st, v, -1 if op == "sitofp" else 1)
            return self.widen(i, st, v, op == "sitofp")
        if op in ("fptosi", "fptoui"):
            v = O(0)
            if v.is_const():
                c = v.cval()
                return self.K(int(c))
            if self.is_int(v):
                return v
            return app(self.ctx, "int", v)
        if op in ("ptrtoint", "inttoptr"):
            if isinstance(O(0), Ptr) and i.ty in ("ptr", "i64"):
                return O(0)
            if op == "inttoptr" and isinstance(O(0), R):
                v = O(0)
                return Ptr("null" if v.is_const() and v.cval() == 0 else "intptr(%s)" % v.show(), self.K(0))
            raise Unsupported(op)
        if op == "extractvalue":
            v = O(0)
            for k in i.d["idx"]:
                v = v.e[k]
            return v
        if op == "insertvalue":
            a, v = O(0), O(1)
            e = dict(a.e) if isinstance(a, Agg) else {}
            if len(i.d["idx"]) != 1:
                raise Unsupported("nested insertvalue")
            e[i.d["idx"][0]] = v
            return Agg(e)
        if op == "extractelement":
            v, k = O(0), O(1)
            if isinstance(v, Agg):
                return v.e[int(k.cval())]
            raise Unsupported("extractelement")
        if op == "insertelement":
            a, v, k = O(0), O(1), O(2)
            e = dict(a.e) if isinstance(a, Agg) else {}
            e[int(k.cval())] = v
            return Agg(e)
        if op in ("call", "invoke"):
            return self.call(i, st)
        raise Unsupported("opcode " + op)

    def widen(self, i, st, v, signed):
        """value of an extension: a narrowed value that may not fit its narrow type wraps"""
        o = i.ops[0]
        t = self.fn.val.get(o[1]) if o[0] == "v" else None
        if isinstance(v, R) and v.is_const() and v.cval().denominator == 1:
            w = self.width(o)
            return self.K(narrow(v.cval(), w, signed)) if w and w <= 16 else v
        if t is None or t.op != "trunc" or not isinstance(v, R) or v.is_const():
            return v
        w = int(t.ty[1:])
        if w > 16:
            return v
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if not self.sign_under(st.cons, v - lo) & NEG and not self.sign_under(st.cons, v - hi) & POS:
            return v
        return app(self.ctx, "wrap_%s%d" % ("i" if signed else "u", w), v)

    def width(self, o):
        """bits of an integer operand, if known"""
        t = self.fn.val.get(o[1]) if o[0] == "v" else None
        ty = getattr(t, "ty", None)
        return int(ty[1:]) if isinstance(ty, str) and ty[:1] == "i" and ty[1:].isdigit() else None

    def nonneg_form(self, a):
        """sizes and counts only, with positive coefficients"""
        if not a.d.is_const():
            return False
        for m, c in a.n.t.items():
            if c < 0:
                return False
            for s, _ in m:
                n = self.ctx.names[s].split("~")[0].split(".")[-1]
                if n not in ("width", "height", "row_stride", "n") and not n.startswith("n_"):
                    return False
        return True

    def trunc_transparent(self, i):
        return True

    def is_int(self, v):
        """built from integer symbols only: floor/round/int results"""
        if not v.d.is_const():
            return False
        for m, c in v.n.t.items():
            if c.denominator != 1:
                return False
            for s, _ in m:
                inf = self.ctx.appinfo.get(s)
                if not inf or inf[0] not in ("floor", "ceil", "round", "int"):
                    return False
        return True

    def fork_bool(self, st, c, one):
        out = []
        for want, v in ((True, one), (False, 0)):
            for cons in self.split(st.cons, c, want):
                out.append((cons, self.K(v)))
        return out

    def condnum(self, i, st, a, b):
        raise Unsupported("arithmetic on conditions")

    def fork_sign(self, st, expr, alts):
        """alts: list of (mask, value)"""
        out = []
        for m, v in alts:
            c = self.assume(st.cons, expr, m)
            if c is not None:
                out.append((c, v))
        return out

    def call(self, i, st):
        n = i.callee
        O = lambda k: self.operand(st, i.ops[k])
        if n is None:
            f = self.operand(st, i.d["fptr"])
            if isinstance(f, Ptr) and f.base.startswith("@"):
                n = f.base[1:]
            elif isinstance(f, Ptr) and f.base in self.opaque:
                return self.opaque[f.base](self, i, st, [self.operand(st, o) for o in i.ops])
            else:
                raise Unsupported("indirect call")
        b = n
        if n.startswith("llvm."):
            b = n[5:].split(".")[0]
            if b == "va_start" and self.varargs is not None:
                # the argument list: everything is in the overflow area (register areas used up)
                d = O(0)
                n = self.fresh_name("va")
                for off, w, v in ((0, 4, self.K(48)), (4, 4, self.K(176)), (8, 8, Ptr(n, self.K(0))), (16, 8, Ptr(n + "r", self.K(0)))):
                    st.mem[d.base] = Entry("store", d.off + off, w, v, st.mem.get(d.base))
                for k, (v, w) in enumerate(self.varargs):
                    st.mem[n] = Entry("store", self.K(8 * k), w, v, st.mem.get(n))
                return None
            if b == "va_copy" and self.varargs is not None:
                d, s = O(0), O(1)
                st.mem[d.base] = Entry("copy", d.off, 24, (s.base, s.off, st.mem.get(s.base)), st.mem.get(d.base))
                return None
            if b in ("lifetime", "assume", "dbg", "experimental", "va_start", "va_end", "va_copy", "stacksave", "stackrestore", "prefetch", "donothing"):
                return None
            if b == "expect":
                return O(0)
            if n.startswith("llvm.is.constant"):
                # llvm.is.constant: what the code does may not depend on the answer
                return self.K(0)
            if b in ("ctlz", "cttz") and O(0).is_const():
                w = int(n.rsplit("i", 1)[1])
                v = int(O(0).cval()) & ((1 << w) - 1)
                return self.K((w - v.bit_length()) if b == "ctlz" else w if not v else (v & -v).bit_length() - 1)
            if b in ("memcpy", "memmove"):
                d, s, ln = O(0), O(1), O(2)
                if self.guard and not (ln.is_const() and ln.cval() == 0):
                    self.guard(self, st, s, ln, "read")
                    self.guard(self, st, d, ln, "write")
                if not ln.is_const():
                    st.mem[d.base] = Entry("vcopy", d.off, ln, (s.base, s.off, st.mem.get(s.base)), st.mem.get(d.base))
                    return None
                if ln.cval():
                    st.mem[d.base] = Entry("copy", d.off, ln.cval(), (s.base, s.off, st.mem.get(s.base)), st.mem.get(d.base))
                return None
            if b == "memset":
                d, v, ln = O(0), O(1), O(2)
                if self.guard and not (ln.is_const() and ln.cval() == 0):
                    self.guard(self, st, d, ln, "write")
                if not ln.is_const():
                    st.mem[d.base] = Entry("vset", d.off, ln, v, st.mem.get(d.base))
                    return None
                if not (v.is_const() and v.cval() == 0):
                    if v.is_const():
                        st.mem[d.base] = Entry("fill", d.off, ln.cval(), v, st.mem.get(d.base))
                        return None
                    raise Unsupported("memset value")
                st.mem[d.base] = Entry("zero", d.off, ln.cval(), None, st.mem.get(d.base))
                return None
            if b in ("fmuladd", "fma"):
                return O(0) * O(1) + O(2)
            if b in ("smin", "umin", "minnum", "minimum", "smax", "umax", "maxnum", "maximum"):
                x, y = O(0), O(1)
                lo, hi = (x, y) if "min" in b else (y, x)
                return self.fork_sign(st, x - y, [(NEG, lo), (ZERO | POS, hi)])
            if b == "abs":
                x = O(0)
                return self.fork_sign(st, x, [(NEG, -x), (ZERO | POS, x)])
            if b == "umul" or b == "usub" or b == "uadd":
                raise Unsupported(n)
        base = b
        if not n.startswith("llvm.") and "." in n and n.rsplit(".", 1)[1].isdigit():
            base = n.rsplit(".", 1)[0]
        if base in self.opaque or n in self.opaque:
            h = self.opaque.get(n) or self.opaque.get(base)
            return h(self, i, st, [self.operand(st, o) for o in i.ops])
        m = {"sqrtf": "sqrt", "sinf": "sin", "cosf": "cos", "tanf": "tan", "fabsf": "fabs", "floorf": "floor", "ceilf": "ceil",
             "roundf": "round", "powf": "pow", "expf": "exp", "logf": "log", "atan2f": "atan2", "acosf": "acos", "asinf": "asin",
             "atanf": "atan", "fminf": "fmin", "fmaxf": "fmax", "lroundf": "lround", "rint": "rint", "hypotf": "hypot", "cbrtf": "cbrt"}
        base = m.get(base, base)
        if base == "sqrt":
            return fsqrt(self.ctx, O(0))
        if base == "sin":
            return fsin(self.ctx, O(0))
        if base == "cos":
            return fcos(self.ctx, O(0))
        if base == "sincos":
            raise Unsupported("sincos")
        if base == "fabs":
            x = O(0)
            return self.fork_sign(st, x, [(NEG, -x), (ZERO | POS, x)])
        if base in ("fmin", "fmax"):
            x, y = O(0), O(1)
            lo, hi = (x, y) if base == "fmin" else (y, x)
            return self.fork_sign(st, x - y, [(NEG, lo), (ZERO | POS, hi)])
        if base == "hypot":
            return fsqrt(self.ctx, O(0) * O(0) + O(1) * O(1))
        if base in ("floor", "ceil", "round", "tan", "pow", "exp", "log", "atan2", "acos", "asin", "atan", "erf", "rint", "cbrt", "exp2", "powi", "nearbyint", "log10", "log2", "fmod", "trunc"):
            args = [self.operand(st, o) for o in i.ops]
            if base in ("floor", "ceil") and args[0].is_const():
                c = args[0].cval()
                f = c.numerator // c.denominator
                return self.K(f if base == "floor" or f == c else f + 1)
            if base == "exp" and args[0].is_const() and args[0].cval() == 0:
                return self.K(1)
            if base == "pow" and args[1].is_const() and args[1].cval() in (2, 3, 1):
                return args[0] ** int(args[1].cval())
            return app(self.ctx, base, *args)
        if base in ("malloc", "calloc", "realloc", "aligned_alloc", "posix_memalign") and base != "posix_memalign":
            st.events.append((base, i.where()))
            if self.unroll:
                return Ptr("heap%d_%d" % (i.id, len(st.events)), self.K(0))
            return Ptr("heap%d" % i.id, self.K(0))
        if base == "free":
            st.events.append((base, i.where()))
            return None
        if self.ignore(n):
            st.events.append((n, i.where()))
            if i.ty != "void":
                return R.var(self.ctx, "ret:%s#%d" % (n, i.id))
            return None
        f = self.mod.functions.get(n)
        if i.d.get("noreturn") or (f and f.noreturn):
            return None
        if self.follow and f is not None and not f.decl:
            args = [self.operand(st, o) for o in i.ops]
            extra = [(a, 4 if (self.width(o) or (o[2] if o[0] == "i" and len(o) > 2 else 64)) <= 32 else 8) for a, o in zip(args[len(f.args):], i.ops[len(f.args):])] if f.vararg else None
            return self.descend(f, st, args[:len(f.args)] if f.vararg else args, extra)
        raise Unsupported("call of %s" % n)

    def fresh_name(self, t):
        self.nframes[0] += 1
        return "heap%s%d" % (t, self.nframes[0])

    def descend(self, f, st, args, extra=None):
        """evaluate a routine that was not inlined (recursion)"""
        if self.depth > 30:
            raise Unsupported("recursion depth in %s" % f.name)
        if len(args) != len(f.args):
            raise Unsupported("call of %s with %d arguments" % (f.name, len(args)))
        sub = PVN(self.mod, f, ctx=self.ctx, opaque=self.opaque, ignore=self.ignore, max_parts=self.max_parts, argvals=dict(enumerate(args)), unroll=self.unroll, distinct=self.distinct)
        self.nframes[0] += 1
        sub.nframes, sub.frame, sub.depth, sub.follow = self.nframes, "F%d." % self.nframes[0], self.depth + 1, True
        sub.deadline, sub.guard, sub.exists, sub.dead = self.deadline, self.guard, self.exists, self.dead
        sub.base_struct, sub.base_size, sub.rom = self.base_struct, self.base_size, self.rom
        sub.varargs, sub.laps, sub.inits = extra, self.laps, self.inits
        c = st.clone()
        sub.start = c
        parts = sub.run1()
        return [(s, s.ret if s.ret is not None else self.K(0)) for s in parts]


KERNEL_PL = ("always-inline,globaldce,function(sroa<modify-cfg>,early-cse<memssa>,instsimplify,simplifycfg,"
             "loop-simplify,lcssa,loop(loop-rotate),loop(indvars),loop(loop-unroll-full),sroa<modify-cfg>,early-cse<memssa>,instsimplify,"
             "simplifycfg,loop-simplify,lcssa,loop(loop-unroll-full),sroa<modify-cfg>,early-cse<memssa>,gvn,instsimplify,adce,simplifycfg)")


def is_log(name):
    return name.startswith("nx_log") or name in ("printf", "fprintf", "puts", "fputs", "putchar", "fflush", "fwrite", "fputc")
