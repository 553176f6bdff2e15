"""Per-pixel reading of image routines: which result pixels are written (coverage of the whole rectangle by
loop index ranges) and with which formula, both with symbolic size and row stride."""
from .kern import *


def field_off(p, struct, path):
    d = p.mod.di[("struct", struct)]
    off = 0
    for part in path.split("."):
        for e in d["els"]:
            if e[0] == part:
                off += e[1]
                size = e[2]
                t = ir.strip_di(e[3])
                if t and t[0] in ("struct", "union"):
                    d = p.mod.di.get((t[0], t[1]))
                break
        else:
            raise Unsupported("struct %s has no member %s" % (struct, path))
    return off, size


def set_field(p, st, base, struct, path, v):
    off, size = field_off(p, struct, path)
    st.mem[base] = Entry("store", p.K(off), size, v, st.mem.get(base))


def get_field(p, st, base, struct, path, ty="i32"):
    off, size = field_off(p, struct, path)
    return p._load(st, st.mem.get(base), base, p.K(off), size, ty)


def resize_handler(p, i, st, args):
    img, w, h, rs, ty, dt = args
    if not img.off.is_const() or img.off.cval() != 0:
        raise Unsupported("resize of an image inside an object")
    b = img.base
    st.events.append(("resize", b, (w, h, rs, ty, dt)))
    set_field(p, st, b, "NXImage", "width", w)
    set_field(p, st, b, "NXImage", "height", h)
    set_field(p, st, b, "NXImage", "type", ty)
    set_field(p, st, b, "NXImage", "dtype", dt)
    set_field(p, st, b, "NXImage", "n_channels", p.V("nch(%s)" % ty.show()) if not ty.is_const() else p.K(1 if ty.cval() == 0 else 4))
    set_field(p, st, b, "NXImage", "row_stride", p.V("stride(%s)" % b))
    set_field(p, st, b, "NXImage", "data", Ptr("pix(%s)" % b, p.K(0)))
    return None


def like_handler(p, i, st, args):
    img, src = args
    g = lambda f: get_field(p, st, src.base, "NXImage", f)
    return resize_handler(p, i, st, [img, g("width"), g("height"), p.K(0), g("type"), g("dtype")])


def nothing(p, i, st, args):
    return None


HANDLERS = {"nx_image_resize": resize_handler, "nx_image_resize_like": like_handler, "nx_image_set_zero": nothing}


class Gap(Exception):
    pass


class Unknown(Unsupported):
    """an addressing form the coverage analysis does not interpret"""


def chain(st, base, stop=None):
    out = []
    e = st.mem.get(base)
    while e is not None and e is not stop:
        out.append(e)
        e = e.prev
    return out[::-1]


def body_states(rec):
    ex = [s for s in rec["exits"] if performed(rec, s)]
    return rec["latch"] + ex


def performed(rec, s):
    if rec.get("body_done"):
        return True
    for b, e in s.mem.items():
        if b.startswith("alloca"):
            continue
        if e is not rec["mark"].get(b):
            return True
    return False


class Img:
    """analysis of the pixels of one image object written by a routine"""

    def __init__(self, case, base, esize, stride, assume=()):
        self.c, self.p, self.base, self.esize = case, case.p, base, esize
        self.stride = stride            # name of the row-stride symbol
        self.extra = list(assume)       # [(expr, mask)] preconditions
        self.pieces = []                # (Y, X, value, constraints, where)
        self.done = {}                  # loop summary -> boxes (the object is kept alive by the entry)

    def addr(self, off):
        idx = off / self.c.K(self.esize)
        l = linear(idx, self.stride)
        if l is None:
            raise Unknown("address %s is not row*stride + column" % off.show())
        return l

    def last_k(self, rec, more):
        """largest iteration number executed, from the counted exits"""
        out = None
        for s, root in trip_roots(rec):
            if self.cons(s, more) is None:
                continue
            if root is None:
                raise Gap("the loop at %s is left early when %s" % (rec["where"], guard_text(s)[-160:]))
            l = root if performed(rec, s) else root - 1
            if out is not None and not out.same(l):
                raise Gap("the loop at %s has exits after different iteration counts" % rec["where"])
            out = l
        if out is None:
            raise Gap("the loop at %s has no exit" % rec["where"])
        return out

    def cons(self, st, more=()):
        cs = st.cons
        for e, m in list(self.extra) + list(more):
            cs = self.p.assume(cs, e, m)
            if cs is None:
                return None
        return cs

    def zero(self, cs, e):
        if e.is_const():
            return e.cval() == 0
        if self.p.sign_under(cs, e) == ZERO:
            return True
        # the bounds of a box are integers: strictly between -1 and 1 means zero
        return e.d.is_const() and self.p.sign_under(cs, e - 1) == NEG and self.p.sign_under(cs, e + 1) == POS

    def boxes(self, st, stop, more):
        """boxes (ylo,yhi,xlo,xhi) written for sure between stop and the state's current memory"""
        cs = self.cons(st, more)
        if cs is None:
            return None
        out = []
        for e in chain(st, self.base, stop):
            if e.kind == "store":
                if e.size != self.esize:
                    raise Unknown("a store of %s bytes into %d-byte pixels" % (e.size, self.esize))
                y, x = self.addr(e.off)
                self.pieces.append((y, x, e.val, cs, st))
                out.append((y, y, x, x))
            elif e.kind == "vcopy":
                y, x = self.addr(e.off)
                n = e.size / self.c.K(self.esize)
                self.pieces.append((y, x, ("row", n, e.val), cs, st))
                out.append((y, y, x, x + n - 1))
            elif e.kind == "havoc" and e.rec is not None:
                out += self.loop(e.rec, more)
            elif e.kind == "havoc":
                pass
            else:
                raise Unknown("unexpected block write")
        return self.merge(out, cs)

    def loop(self, rec, more):
        if id(rec) not in self.done:
            self.done[id(rec)] = (rec, self.loop1(rec, more))
        return self.done[id(rec)][1]

    def loop1(self, rec, more):
        kn = next(iter(rec["k"].vars()))
        last = self.last_k(rec, more)
        more2 = list(more) + [(last - rec["k"], POS | ZERO)]
        common = None
        for s in body_states(rec):
            b = self.boxes(s, rec["mark"].get(self.base), more2)
            if b is None:
                continue          # infeasible under the preconditions
            common = b if common is None else [x for x in common if any(self.samebox(x, y) for y in b)]
        if common is None:
            return []
        out = []
        for ylo, yhi, xlo, xhi in common:
            dy, dx = any(mentions(v, kn) for v in (ylo, yhi)), any(mentions(v, kn) for v in (xlo, xhi))
            if dy and dx:
                raise Unknown("row and column advance with the same loop at %s" % rec["where"])
            if not dy and not dx:
                out.append((ylo, yhi, xlo, xhi))
                continue
            lo, hi = (ylo, yhi) if dy else (xlo, xhi)
            a, b = linear(lo, kn), linear(hi, kn)
            if a is None or b is None or not a[0].same(b[0]) or not a[0].is_const() or a[0].cval() == 0:
                raise Unknown("index %s does not advance by a constant" % lo.show())
            step = a[0].cval()
            if not (hi - lo + 1).same(abs(step)):
                raise Gap("consecutive iterations at %s leave gaps or overlap: [%s, %s]" % (rec["where"], lo.show(), hi.show()))
            sub = lambda e, v: e.subst({kn: v})
            z = self.c.K(0)
            l2, h2 = (sub(lo, z), sub(hi, last)) if step > 0 else (sub(lo, last), sub(hi, z))
            out.append((l2, h2, xlo, xhi) if dy else (ylo, yhi, l2, h2))
        return out

    def samebox(self, a, b):
        return all(x.same(y) for x, y in zip(a, b))

    def merge(self, bx, cs):
        bx = list(bx)
        again = True
        while again:
            again = False
            for i in range(len(bx)):
                for j in range(len(bx)):
                    if i == j:
                        continue
                    a, b = bx[i], bx[j]
                    m = None
                    if self.samebox(a, b):
                        m = a
                    elif a[0].same(b[0]) and a[1].same(b[1]) and self.zero(cs, a[3] + 1 - b[2]):
                        m = (a[0], a[1], a[2], b[3])
                    elif a[2].same(b[2]) and a[3].same(b[3]) and self.zero(cs, a[1] + 1 - b[0]):
                        m = (a[0], b[1], a[2], a[3])
                    if m is not None:
                        bx = [x for k, x in enumerate(bx) if k not in (i, j)] + [m]
                        again = True
                        break
                if again:
                    break
        return bx

    def full(self, H, W):
        """None when every partition writes all of H x W, else what is missing"""
        seen = 0
        for st in self.c.parts:
            cs = self.cons(st)
            if cs is None:
                continue
            seen += 1
            bx = self.boxes(st, None, ())
            want = (self.c.K(0), H - 1, self.c.K(0), W - 1)
            if not any(all(self.zero(cs, x - y) for x, y in zip(b, want)) for b in bx):
                return "written: %s; wanted rows 0..%s, columns 0..%s when %s" % (
                    ["rows %s..%s cols %s..%s" % tuple(v.show() for v in b) for b in bx], (H - 1).show(), (W - 1).show(), guard_text(st)[:300])
        return None if seen else "no feasible path"

    def sgn(self, cs, e):
        return self.p.sign_under(cs, e)
