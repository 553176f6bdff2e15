"""Exact multivariate polynomials / rational functions over Q with algebraic
relations (s^2 -> p) for square roots and sines.  The value domain of pvn.py."""
from fractions import Fraction
from decimal import Decimal
import struct, math

TOL = Fraction(3, 10 ** 7)


class TooBig(Exception):
    pass


class Ctx:
    def __init__(self):
        self.names = []
        self.byname = {}
        self.rel = {}      # sym -> Poly that equals sym^2
        self.apps = {}     # fn name -> list of (args, sym)
        self.appinfo = {}  # sym -> (fn, args)

    def sym(self, name):
        if name not in self.byname:
            self.byname[name] = len(self.names)
            self.names.append(name)
        return self.byname[name]


class Poly:
    __slots__ = ("t",)

    def __init__(self, t=None):
        self.t = t if t is not None else {}

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c}) if c else Poly()

    @staticmethod
    def var(s):
        return Poly({((s, 1),): Fraction(1)})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), Fraction(0))

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if not k:
            return Poly()
        return Poly({m: c * k for m, c in self.t.items()})

    def mul(self, o, ctx):
        if len(self.t) * len(o.t) > 400000:
            raise TooBig()
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mmul(m1, m2)
                n = t.get(m, 0) + c1 * c2
                if n:
                    t[m] = n
                else:
                    t.pop(m, None)
        p = Poly(t)
        return p.reduce(ctx) if ctx.rel else p

    def reduce(self, ctx):
        """apply s^2 -> rel[s] until no relation symbol has exponent >= 2"""
        cur = self
        while True:
            hit = None
            for m in cur.t:
                for s, e in m:
                    if e >= 2 and s in ctx.rel:
                        hit = (m, s, e)
                        break
                if hit:
                    break
            if not hit:
                return cur
            m, s, e = hit
            c = cur.t[m]
            rest = tuple((a, b) for a, b in m if a != s)
            if e % 2:
                rest = mmul(rest, ((s, 1),))
            t = dict(cur.t)
            del t[m]
            p = Poly({rest: c})
            r = ctx.rel[s]
            for _ in range(e // 2):
                # plain multiplication, reduced by the outer loop
                q = {}
                for m1, c1 in p.t.items():
                    for m2, c2 in r.t.items():
                        mm = mmul(m1, m2)
                        q[mm] = q.get(mm, 0) + c1 * c2
                p = Poly({k: v for k, v in q.items() if v})
            cur = Poly(t) + p

    def same(self, o):
        """equal up to literal rounding"""
        if self.t == o.t:
            return True
        big = max([abs(c) for c in self.t.values()] + [abs(c) for c in o.t.values()] + [Fraction(0)])
        for m in set(self.t) | set(o.t):
            a = self.t.get(m, Fraction(0))
            b = o.t.get(m, Fraction(0))
            if a != b and abs(a - b) > TOL * max(abs(a), abs(b), big / 10 ** 9):
                return False
        return True

    def show(self, ctx):
        if not self.t:
            return "0"
        out = []
        for m in sorted(self.t, key=lambda m: [(ctx.names[s], e) for s, e in m]):
            c = self.t[m]
            ms = "*".join(ctx.names[s] + ("^%d" % e if e > 1 else "") for s, e in m)
            cs = str(c) if c.denominator < 10 ** 6 else "%.9g" % float(c)
            if ms:
                out.append(ms if c == 1 else "-" + ms if c == -1 else cs + "*" + ms)
            else:
                out.append(cs)
        return " + ".join(out)

    def syms(self):
        return {s for m in self.t for s, _ in m}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for s, e in b:
        d[s] = d.get(s, 0) + e
    return tuple(sorted(d.items()))


def try_div(a, b, ctx):
    """exact division a / b by leading-term elimination, or None"""
    if not b.t:
        return None
    if b.is_const():
        return a.scale(1 / b.cval())
    lead = max(b.t)
    bl = dict(lead)
    q = Poly()
    r = a
    for _ in range(400):
        if not r.t:
            return q
        m = max(r.t)
        md = dict(m)
        ok = all(md.get(s, 0) >= e for s, e in bl.items())
        if not ok:
            return None
        mm = tuple(sorted((s, e - bl.get(s, 0)) for s, e in md.items() if e - bl.get(s, 0)))
        term = Poly({mm: r.t[m] / b.t[lead]})
        q = q + term
        r = r - term.mul(b, ctx)
    return None


class R:
    """rational function num/den"""
    __slots__ = ("n", "d", "ctx")

    def __init__(self, ctx, n, d=None):
        self.ctx = ctx
        self.n = n
        self.d = d if d is not None else Poly.const(1)

    @staticmethod
    def const(ctx, c):
        return R(ctx, Poly.const(c))

    @staticmethod
    def var(ctx, name):
        return R(ctx, Poly.var(ctx.sym(name)))

    def _c(self, o):
        if isinstance(o, R):
            return o
        return R.const(self.ctx, tofrac(o))

    def is_const(self):
        return self.n.is_const() and self.d.is_const()

    def cval(self):
        return self.n.cval() / self.d.cval()

    def __add__(self, o):
        o = self._c(o)
        if self.d.t == o.d.t:
            return R(self.ctx, self.n + o.n, self.d).norm()
        if self.d.is_const() and o.d.is_const():
            return R(self.ctx, self.n.scale(1 / self.d.cval()) + o.n.scale(1 / o.d.cval()))
        c = self.ctx
        return R(c, self.n.mul(o.d, c) + o.n.mul(self.d, c), self.d.mul(o.d, c)).norm()

    __radd__ = __add__

    def __neg__(self):
        return R(self.ctx, -self.n, self.d)

    def __sub__(self, o):
        return self + (-self._c(o))

    def __rsub__(self, o):
        return self._c(o) + (-self)

    def __mul__(self, o):
        o = self._c(o)
        c = self.ctx
        if self.d.is_const() and o.d.is_const():
            return R(c, self.n.mul(o.n, c).scale(1 / (self.d.cval() * o.d.cval())))
        return R(c, self.n.mul(o.n, c), self.d.mul(o.d, c)).norm()

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._c(o)
        if not o.n.t:
            raise ZeroDivisionError
        return self * R(self.ctx, o.d, o.n)

    def __rtruediv__(self, o):
        return self._c(o) / self

    def __pow__(self, k):
        r = R.const(self.ctx, 1)
        for _ in range(k):
            r = r * self
        return r

    def norm(self):
        if self.d.is_const():
            return R(self.ctx, self.n.scale(1 / self.d.cval()))
        if not self.n.t:
            return R(self.ctx, Poly())
        q = try_div(self.n, self.d, self.ctx)
        if q is not None:
            return R(self.ctx, q)
        q = try_div(self.d, self.n, self.ctx)
        if q is not None:
            return R(self.ctx, Poly.const(1), q)
        return self

    def same(self, o):
        o = self._c(o)
        if self.d.t == o.d.t:
            return self.n.same(o.n)
        return self.n.mul(o.d, self.ctx).same(o.n.mul(self.d, self.ctx))

    def ratio(self, o):
        """constant k with self == k*o, or None"""
        a = self.n.mul(o.d, self.ctx)
        b = o.n.mul(self.d, self.ctx)
        if set(a.t) != set(b.t) or not a.t:
            return None
        m = next(iter(a.t))
        k = a.t[m] / b.t[m]
        return k if a.same(b.scale(k)) else None

    def syms(self):
        return self.n.syms() | self.d.syms()

    def show(self):
        if self.d.is_const():
            return R(self.ctx, self.n.scale(1 / self.d.cval())).n.show(self.ctx)
        return "(%s)/(%s)" % (self.n.show(self.ctx), self.d.show(self.ctx))

    __repr__ = show

    def subst(self, mp):
        """replace named variables (not inside function applications) by rational functions"""
        def ev(p):
            out = R.const(self.ctx, 0)
            for m, c in p.t.items():
                term = R.const(self.ctx, c)
                for s, e in m:
                    nm = self.ctx.names[s]
                    v = mp[nm] if nm in mp else R(self.ctx, Poly.var(s))
                    term = term * v ** e
                out = out + term
            return out
        r = ev(self.n)
        return r if self.d.is_const() and self.d.cval() == 1 else r / ev(self.d)

    def vars(self):
        return {self.ctx.names[s] for p in (self.n, self.d) for m in p.t for s, _ in m}


def tofrac(x):
    """value of a literal: shortest decimal that denotes it in its own precision"""
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if x != x or x in (float("inf"), float("-inf")):
        raise OverflowError
    d = repr(x)
    try:
        f32 = struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        f32 = None
    if f32 == x:
        for p in range(1, 10):
            s = "%.*g" % (p, x)
            if struct.unpack("f", struct.pack("f", float(s)))[0] == x:
                if len(s) < len(d):
                    d = s
                break
    return Fraction(Decimal(d))


def app(ctx, fn, *args):
    """hash-consed uninterpreted application"""
    if fn in ("idiv", "floordiv") and len(args) == 2 and args[1].is_const() and not args[0].is_const():
        # integer quotients: cancel the common factor (exact for both roundings)
        a, c = args[0], args[1].cval()
        if c > 0 and c.denominator == 1 and a.d.is_const():
            cs = [k / a.d.cval() for k in a.n.t.values()]
            if all(k.denominator == 1 for k in cs):
                g = int(c)
                for k in cs:
                    g = math.gcd(g, int(k))
                if g == c:
                    return a * R.const(ctx, Fraction(1, g))
                if g > 1:
                    args = (a * R.const(ctx, Fraction(1, g)), R.const(ctx, c / g))
    lst = ctx.apps.setdefault(fn, [])
    for a, s in lst:
        if len(a) == len(args) and all(x.same(y) for x, y in zip(a, args)):
            return R(ctx, Poly.var(s))
    s = ctx.sym("%s(%s)" % (fn, ", ".join(a.show() for a in args)))
    lst.append((args, s))
    ctx.appinfo[s] = (fn, args)
    return R(ctx, Poly.var(s))


def fsqrt(ctx, x):
    if x.is_const():
        c = x.cval()
        if c >= 0:
            a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if a * a == c.numerator and b * b == c.denominator:
                return R.const(ctx, Fraction(a, b))
    r = app(ctx, "sqrt", x)
    s = next(iter(r.syms()))
    if s not in ctx.rel and x.d.is_const():
        ctx.rel[s] = x.n.scale(1 / x.d.cval())
    return r


def _neglead(x):
    ms = sorted(x.n.t)
    return bool(ms) and (x.n.t[ms[-1]] < 0)


def fcos(ctx, x):
    if x.is_const() and x.cval() == 0:
        return R.const(ctx, 1)
    if _neglead(x):
        x = -x
    return app(ctx, "cos", x)


def fsin(ctx, x):
    if x.is_const() and x.cval() == 0:
        return R.const(ctx, 0)
    if _neglead(x):
        return -fsin(ctx, -x)
    r = app(ctx, "sin", x)
    s = next(iter(r.syms()))
    if s not in ctx.rel:
        c = fcos(ctx, x)
        ctx.rel[s] = Poly.const(1) - c.n.mul(c.n, ctx)
    return r
