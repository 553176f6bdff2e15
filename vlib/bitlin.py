"""Integer-linear forms over the bits of one argument: decides bit-counting code.
A value is sum(c_i * bit_i), understood modulo 2^w without wrap; masks and shifts are interpreted on the fields
(groups of equal power-of-two coefficients) and refused when a field straddles them."""
from .pvn import Unsupported


class Lin:
    def __init__(self, w, c, k=0):
        self.w, self.c, self.k = w, {i: v for i, v in c.items() if v}, k

    def fields(self):
        g = {}
        for i, v in self.c.items():
            if v <= 0 or v & (v - 1):
                raise Unsupported("bit-count form")
            g.setdefault(v.bit_length() - 1, []).append(i)
        if self.k:
            raise Unsupported("bit-count constant")
        top = -1
        for p in sorted(g):
            if p <= top:
                raise Unsupported("bit-count fields overlap")
            top = p + len(g[p]).bit_length() - 1
        if top >= self.w:
            raise Unsupported("bit-count overflow")
        return g

    def extent(self, p, l):
        return range(p, p + len(l).bit_length())


def band(a, mask):
    out = {}
    for p, l in a.fields().items():
        bits = [(mask >> j) & 1 for j in a.extent(p, l)]
        if all(bits):
            out.update({i: 1 << p for i in l})
        elif any(bits):
            raise Unsupported("mask splits a bit-count field")
    return Lin(a.w, out)


def lshr(a, n):
    out = {}
    for p, l in a.fields().items():
        if p >= n:
            out.update({i: 1 << (p - n) for i in l})
        elif p + len(l).bit_length() > n:
            raise Unsupported("shift splits a bit-count field")
    return Lin(a.w, out)


def shl(a, n):
    """modulo 2^w: fields shifted out entirely vanish"""
    out = {}
    for p, l in a.fields().items():
        if p + n >= a.w:
            continue
        if p + n + len(l).bit_length() > a.w:
            raise Unsupported("shift cuts a bit-count field")
        out.update({i: 1 << (p + n) for i in l})
    return Lin(a.w, out)


def add(a, b, s=1):
    c = dict(a.c)
    for i, v in b.c.items():
        c[i] = c.get(i, 0) + s * v
    return Lin(a.w, c, a.k + s * b.k)


def evaluate(fn):
    """value returned by straight-line code of one integer argument, as Lin or ('ctpop', Lin)"""
    w = int(fn.args[0]["ty"][1:])
    if len(fn.blocks) != 1:
        raise Unsupported("bit count is not straight-line code")
    val = {fn.args[0]["id"]: Lin(w, {i: 1 << i for i in range(w)})}

    def O(o):
        if o[0] == "v":
            return val[o[1]]
        if o[0] == "i":
            return int(o[1])
        raise Unsupported("operand")
    for i in fn.blocks[0].ins:
        if i.op == "ret":
            return O(i.ops[0])
        if i.is_call() and i.callee.startswith("llvm.dbg"):
            continue
        a = [O(o) for o in i.ops if o[0] in ("v", "i")]
        if i.op == "and" and isinstance(a[0], Lin) and isinstance(a[1], int):
            val[i.id] = band(a[0], a[1] & ((1 << w) - 1))
        elif i.op == "and" and isinstance(a[1], Lin) and isinstance(a[0], int):
            val[i.id] = band(a[1], a[0] & ((1 << w) - 1))
        elif i.op == "lshr" and isinstance(a[1], int):
            val[i.id] = lshr(a[0], a[1])
        elif i.op == "shl" and isinstance(a[1], int):
            val[i.id] = shl(a[0], a[1])
        elif i.op == "add" and all(isinstance(x, Lin) for x in a):
            val[i.id] = add(a[0], a[1])
        elif i.op == "sub" and all(isinstance(x, Lin) for x in a):
            val[i.id] = add(a[0], a[1], -1)
        elif i.op == "or" and all(isinstance(x, Lin) for x in a):
            r = add(a[0], a[1])
            e0 = {j for p, l in a[0].fields().items() for j in a[0].extent(p, l)}
            e1 = {j for p, l in a[1].fields().items() for j in a[1].extent(p, l)}
            if e0 & e1:
                raise Unsupported("or of overlapping fields")
            val[i.id] = r
        elif i.op == "mul" and any(isinstance(x, int) for x in a):
            x, k = (a[0], a[1]) if isinstance(a[1], int) else (a[1], a[0])
            k &= (1 << w) - 1
            r = Lin(w, {})
            for j in range(w):
                if (k >> j) & 1:
                    r = add(r, shl(x, j))
            val[i.id] = r
        elif i.op in ("zext", "trunc", "sext"):
            x = a[0]
            nw = int(i.ty[1:])
            if i.op == "trunc":
                f = x.fields()
                if any(p + len(l).bit_length() > nw for p, l in f.items()):
                    raise Unsupported("truncation of a bit-count field")
            val[i.id] = Lin(nw, x.c)
        elif i.is_call() and i.callee.startswith("llvm.ctpop"):
            x = a[0]
            f = x.fields()
            if any(len(l) > 1 for l in f.values()):
                raise Unsupported("population count of a sum")
            val[i.id] = Lin(int(i.ty[1:]), {l[0]: 1 for l in f.values()})
        else:
            raise Unsupported("bit-count operation " + i.op)
    raise Unsupported("no result")
