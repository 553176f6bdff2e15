"""Bit-exact value numbering of machine words.

A w-bit word is kept in algebraic normal form per bit position: a XOR of products of literals, where the literal
(atom, off) stands for bit j+off of the atom at position j, and a mask says at which positions the product occurs.
Shifts, rotations, masks, truncation, extension, and/or/xor/not are exact and canonical; sums modulo 2^w are
hash-consed atoms with flattened operands.  Two words are equal as functions of the atoms' bits when their normal
forms are (the converse holds up to identities of modular addition)."""
from .pvn import *
from .pvn import PVN, Ptr, Cond
from .poly import R


class Words:
    """atom table"""

    def __init__(self):
        self.atoms = {}
        self.info = []

    def atom(self, key, width):
        if key not in self.atoms:
            self.atoms[key] = len(self.info)
            self.info.append((key, width))
        return self.atoms[key]

    def var(self, name, width):
        a = self.atom(("var", name), width)
        return Word(self, width, {frozenset([(a, 0)]): (1 << width) - 1})

    def const(self, c, width):
        c &= (1 << width) - 1
        return Word(self, width, {frozenset(): c} if c else {})

    def add(self, width, terms, c=0):
        """terms: list of (word, coefficient)"""
        acc = {}
        M = (1 << width) - 1
        c &= M

        def put(w, k):
            nonlocal c
            if w.is_const():
                c = (c + k * w.cval()) & M
                return
            s = w.sum_of()
            if s is not None:
                for key, kk in s[0]:
                    acc[key] = (acc.get(key, 0) + k * kk) & M
                c = (c + k * s[1]) & M
                return
            acc[w.key()] = (acc.get(w.key(), 0) + k) & M
        for w, k in terms:
            put(w, k)
        acc = {k: v for k, v in acc.items() if v}
        if not acc:
            return self.const(c, width)
        if len(acc) == 1 and c == 0:
            (key, k), = acc.items()
            w = Word(self, width, dict(key[1]))
            if k == 1:
                return w
            if k & (k - 1) == 0:
                return w.shl(k.bit_length() - 1)
        # disjoint supports: the sum is the bitwise or
        if all(k == 1 for k in acc.values()):
            ws = [Word(self, width, dict(key[1])) for key in acc] + ([self.const(c, width)] if c else [])
            used = 0
            dis = True
            for w in ws:
                s = w.support()
                if used & s:
                    dis = False
                    break
                used |= s
            if dis:
                r = ws[0]
                for w in ws[1:]:
                    r = r.xor(w)
                return r
        key = ("sum", width, frozenset(acc.items()), c)
        a = self.atom(key, width)
        return Word(self, width, {frozenset([(a, 0)]): M})


class Word:
    __slots__ = ("T", "w", "m", "_k")

    def __init__(self, T, w, m):
        self.T, self.w, self.m = T, w, m
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (self.w, frozenset(self.m.items()))
        return self._k

    def same(self, o):
        return isinstance(o, Word) and self.key() == o.key()

    def is_const(self):
        return not self.m or (len(self.m) == 1 and frozenset() in self.m)

    def cval(self):
        return self.m.get(frozenset(), 0)

    def support(self):
        s = 0
        for v in self.m.values():
            s |= v
        return s

    def sum_of(self):
        if len(self.m) == 1:
            (mono, mask), = self.m.items()
            if len(mono) == 1 and mask == (1 << self.w) - 1:
                (a, off), = mono
                key, w = self.T.info[a]
                if off == 0 and key[0] == "sum" and w == self.w:
                    return key[2], key[3]
        return None

    def xor(self, o):
        m = dict(self.m)
        for k, v in o.m.items():
            n = m.get(k, 0) ^ v
            if n:
                m[k] = n
            else:
                m.pop(k, None)
        return Word(self.T, self.w, m)

    def and_(self, o):
        m = {}
        if len(self.m) * len(o.m) > 40000:
            raise Unsupported("word too large")
        for a, x in self.m.items():
            for b, y in o.m.items():
                z = x & y
                if z:
                    k = a | b
                    n = m.get(k, 0) ^ z
                    if n:
                        m[k] = n
                    else:
                        m.pop(k, None)
        return Word(self.T, self.w, m)

    def not_(self):
        return self.xor(self.T.const(-1, self.w))

    def or_(self, o):
        return self.xor(o).xor(self.and_(o))

    def _remap(self, w, f):
        """bit j of the result is bit f(j) of self (None: 0)"""
        runs = {}
        for j in range(w):
            s = f(j)
            if s is not None:
                runs[s - j] = runs.get(s - j, 0) | (1 << j)
        m = {}
        for d, pos in runs.items():
            for mono, mask in self.m.items():
                mk = (mask >> d) if d >= 0 else (mask << -d)
                mk &= pos
                if mk:
                    k = frozenset((a, off + d) for a, off in mono)
                    n = m.get(k, 0) ^ mk
                    if n:
                        m[k] = n
                    else:
                        m.pop(k, None)
        return Word(self.T, w, m)

    def shl(self, n):
        return self._remap(self.w, lambda j: j - n if j >= n else None)

    def lshr(self, n):
        return self._remap(self.w, lambda j: j + n if j + n < self.w else None)

    def ashr(self, n):
        return self._remap(self.w, lambda j: min(j + n, self.w - 1))

    def rotr(self, n):
        return self._remap(self.w, lambda j: (j + n) % self.w)

    def trunc(self, w):
        return self._remap(w, lambda j: j)

    def zext(self, w):
        return self._remap(w, lambda j: j if j < self.w else None)

    def sext(self, w):
        return self._remap(w, lambda j: min(j, self.w - 1))

    def bswap(self):
        n = self.w // 8
        return self._remap(self.w, lambda j: (n - 1 - j // 8) * 8 + j % 8)

    def show(self):
        def at(a):
            key, w = self.T.info[a]
            return key[1] if key[0] == "var" else "sum%d" % a
        out = []
        for mono, mask in list(self.m.items())[:12]:
            out.append("&".join(sorted("%s%s" % (at(a), "" if not off else "[+%d]" % off) for a, off in mono)) + ":%x" % mask)
        return " ^ ".join(out) or "0"

    __repr__ = show


class BVN(PVN):
    """PVN whose integers loaded from the given bases are words.
    elems: base -> element size in bytes"""

    def __init__(self, mod, fn, elems=None, words=None, **kw):
        PVN.__init__(self, mod, fn, **kw)
        self.elems = elems or {}
        self.W = words or Words()

    def bits(self, ty):
        return int(ty[1:])

    def word(self, v, w):
        if isinstance(v, Word):
            return v
        if isinstance(v, R) and v.is_const() and v.cval().denominator == 1:
            return self.W.const(int(v.cval()), w)
        raise Unsupported("mixed word and symbolic integer")

    def fold(self, v):
        if isinstance(v, Word) and v.is_const():
            c = v.cval()
            if c >= 1 << (v.w - 1):
                c -= 1 << v.w
            return self.K(c)
        return v

    def elem(self, base):
        for b, s in self.elems.items():
            if base == b or (b.endswith("*") and base.startswith(b[:-1])):
                return s
        return None

    def _load(self, st, e, base, off, size, ty):
        isint = ty[0] == "i" and ty[1:].isdigit()
        try:
            v = PVN._load(self, st, e, base, off, size, ty)
        except Unsupported as x:
            if isint and size > 1 and off.is_const() and "overlap" in str(x) or "straddles" in str(x):
                r = self.W.const(0, size * 8)
                for k in range(size):
                    b = self.word(self.load_byte(st, e, base, off + k), 8)
                    r = r.xor(b.zext(size * 8).shl(8 * k))
                return self.fold(r)
            if isint and size == 1 and off.is_const() and "overlap" in str(x):
                return self.load_byte(st, e, base, off)
            raise
        if isint and isinstance(v, R) and not v.is_const() and self.elem(base) and e_none(st, e, base, off, size):
            es = self.elem(base)
            if not off.is_const():
                if size == es:
                    return self.W.var("%s[%s]" % (base, (off / self.K(es)).show()), size * 8)
                return v
            o = int(off.cval())
            r = self.W.const(0, size * 8)
            for k in range(size):
                q = o + k
                b = self.W.var("%s[%d]" % (base, q // es), es * 8).lshr(8 * (q % es)).trunc(8)
                r = r.xor(b.zext(size * 8).shl(8 * k))
            return r
        if isinstance(v, Word) and isint and v.w != size * 8:
            return v.trunc(size * 8) if v.w > size * 8 else v.zext(size * 8)
        return v

    def load_byte(self, st, e, base, off):
        """one byte below a chain of stores at constant offsets"""
        x = e
        while x is not None:
            if x.kind == "havoc" or x.off is None or not x.off.is_const():
                break
            d = off.cval() - x.off.cval()
            if 0 <= d < x.size:
                if x.kind == "store":
                    if not isinstance(x.val, (Word, R)):
                        break
                    return self.fold(self.word(x.val, int(x.size) * 8).lshr(8 * int(d)).trunc(8))
                if x.kind == "fill":
                    return x.val
                break
            x = x.prev
        return self._load(st, x, base, off, 1, "i8")

    def cmp(self, a, b, pred):
        if isinstance(a, Word) or isinstance(b, Word):
            w = a.w if isinstance(a, Word) else b.w
            if pred in ("eq", "ne"):
                d = self.word(a, w).xor(self.word(b, w))
                if d.is_const():
                    return Cond("const", (d.cval() == 0) == (pred == "eq"))
                return Cond("sign", R.var(self.ctx, "nz<%s>" % d.show()), ZERO if pred == "eq" else NEG | POS)
            raise Unsupported("ordering of words")
        return PVN.cmp(self, a, b, pred)

    def instr(self, i, st):
        op = i.op
        if op in ("and", "or", "xor", "shl", "lshr", "ashr", "add", "sub", "mul"):
            a, b = self.operand(st, i.ops[0]), self.operand(st, i.ops[1])
            if isinstance(a, Word) or isinstance(b, Word):
                w = self.bits(i.ty)
                if op in ("shl", "lshr", "ashr"):
                    if isinstance(b, Word) or not b.is_const():
                        raise Unsupported("variable shift")
                    return self.fold(getattr(self.word(a, w), op)(int(b.cval())))
                x, y = self.word(a, w), self.word(b, w)
                if op == "and":
                    return self.fold(x.and_(y))
                if op == "or":
                    return self.fold(x.or_(y))
                if op == "xor":
                    return self.fold(x.xor(y))
                if op == "add":
                    return self.fold(self.W.add(w, [(x, 1), (y, 1)]))
                if op == "sub":
                    return self.fold(self.W.add(w, [(x, 1), (y, -1)]))
                if x.is_const() or y.is_const():
                    k, v = (x, y) if x.is_const() else (y, x)
                    return self.fold(self.W.add(w, [(v, k.cval())]))
                raise Unsupported("product of words")
        if op in ("zext", "sext", "trunc", "freeze", "bitcast"):
            v = self.operand(st, i.ops[0])
            if isinstance(v, Word):
                if op == "trunc" and i.ty == "i1":
                    b = v.trunc(1)
                    if b.is_const():
                        return Cond("const", b.cval() != 0)
                    return Cond("sign", R.var(self.ctx, "nz<%s>" % b.show()), NEG | POS)
                return self.fold(getattr(v, op)(self.bits(i.ty))) if op in ("zext", "sext", "trunc") else v
        if i.is_call() and i.callee and i.callee.startswith("llvm."):
            b = i.callee[5:].split(".")[0]
            if b in ("fshl", "fshr", "bswap"):
                vs = [self.operand(st, o) for o in i.ops]
                if any(isinstance(v, Word) for v in vs):
                    w = self.bits(i.ty)
                    if b == "bswap":
                        return self.fold(vs[0].bswap())
                    x, y = self.word(vs[0], w), self.word(vs[1], w)
                    n = int(vs[2].cval()) % w
                    if x.same(y):
                        return self.fold(x.rotr((w - n) % w if b == "fshl" else n))
                    if n == 0:
                        return x if b == "fshl" else y
                    return self.fold(x.shl(n).or_(y.lshr(w - n)) if b == "fshl" else x.shl(w - n).or_(y.lshr(n)))
        return PVN.instr(self, i, st)


def e_none(st, e, base, off, size):
    """no store on the chain overlaps: the value is the initial content"""
    x = e
    while x is not None:
        if x.kind in ("havoc", "vcopy", "vset"):
            return False
        d = off - x.off
        if not d.is_const() or -size < d.cval() < x.size:
            return False
        x = x.prev
    return True
