"""Image warps: affine bilinear warp, rotation by 45 degrees, affine warp processor, checkerboard response."""
from vlib.pix import *
from checks.p12 import img, num, ev, eq, ptr_at
import math, struct

LEVEL = "bounded"
NN = POS | ZERO
BLACK, WHITE, NOISE, REPEAT, MIRROR = range(5)
TOL = Fraction(1, 2000)


def f32(x):
    return Fraction(struct.unpack("f", struct.pack("f", float(x)))[0])


def lin(r):
    """{variable: coefficient} of a linear expression with constant denominator"""
    if not isinstance(r, R) or not r.d.is_const():
        return None
    d = r.d.cval()
    out = {}
    for mono, k in r.n.t.items():
        if not mono:
            out[None] = k / d
        elif len(mono) == 1 and mono[0][1] == 1:
            out[mono[0][0]] = k / d
        else:
            return None
    return out


def strip_int(c, v):
    """argument of int(...) when the value is one such application"""
    l = lin(v)
    if l and len(l) == 1:
        (s, k), = l.items()
        inf = c.ctx.appinfo.get(s)
        if k == 1 and inf and inf[0] == "int":
            return inf[1][0]
    return None


def near(c, v, want):
    """v and want (both linear) have the same coefficients up to rounding of the position constants"""
    a, b = lin(v), lin(want)
    if a is None or b is None:
        return None
    return all(abs(a.get(k, 0) - b.get(k, 0)) <= TOL for k in set(a) | set(b))


def bilinear(P, x, y, clampx=None, clampy=None):
    xi, yi = math.floor(x), math.floor(y)
    u, v = x - xi, y - yi
    fx, fy = clampx or (lambda t: t), clampy or (lambda t: t)
    x0, x1, y0, y1 = fx(xi), fx(xi + 1), fy(yi), fy(yi + 1)
    return (P(x0, y0) * (1 - u) + P(x1, y0) * u) * (1 - v) + (P(x0, y1) * (1 - u) + P(x1, y1) * u) * v


def mirror(i, last):
    if last < 1:
        return 0
    i = abs(i) % (2 * last)
    return i if i <= last else 2 * last - i


def judge(rep, rule, inst, c, st, got, want, isint=True):
    """stored pixel: int(want), or the clamp when the sign decided on the path says so"""
    if isinstance(want, (int, Fraction)):
        want = c.K(want)
    if not isint or lin(want) == {} or set(lin(want) or {1: 1}) <= {None}:
        if isint and set(lin(want) or {}) <= {None}:
            return rep.check(isinstance(got, R) and got.is_const() and (got.cval() - int(want.cval())) % 256 == 0, rule, inst, c.fn.where(), "pixel is %s, expected %s" % (got, want))
        n = near(c, got, want)
        return rep.check(bool(n), rule, inst, c.fn.where(), "pixel is %s, expected %s" % (got.show()[:200] if isinstance(got, R) else got, want.show()[:200]))
    a = strip_int(c, got)
    if a is not None:
        return rep.check(bool(near(c, a, want)), rule, inst, c.fn.where(), "pixel is %s, expected int(%s)" % (got.show()[:200], want.show()[:200]))
    if isinstance(got, R) and got.is_const() and got.cval() % 256 in (0, 255):
        gv = got.cval() % 256
        # clamped path: the guarding value must be the interpolated one
        for e, mk in st.cons:
            l = lin(e)
            for s in (l or {}):
                inf = c.ctx.appinfo.get(s) if s is not None else None
                if inf and inf[0] == "int" and near(c, inf[1][0], want):
                    pos = c.p.sign_under(st.cons, R(c.ctx, Poly.var(s)))
                    hi = c.p.sign_under(st.cons, R(c.ctx, Poly.var(s)) - 255)
                    if gv == 0 and not (pos & POS) or gv == 255 and not (hi & NEG):
                        return rep.ok(rule, inst + " clamped", c.fn.where())
    return rep.check(False, rule, inst, c.fn.where(), "pixel is %s, expected int(%s) (when %s)" % (got.show()[:200] if isinstance(got, R) else got, want.show()[:200], guard_text(st)[:200]))


def run(rep):
    th = rep.tier == "thorough"
    affine(rep, th)
    rotate(rep)
    processor(rep)
    stages(rep, th)
    blur(rep)
    checkers(rep)
    rep.need("affine warp", 60)
    rep.need("rotation", 20)
    rep.need("warp processor", 20)
    rep.need("checkerboard", 8)


def affine(rep, th):
    rule = "affine warp"
    fn = "nx_image_warp_affine_bilinear"
    UNI = {"nx_uniform_sampler_instance": lambda p, i, st, a: Ptr("gs", p.K(0)), "nx_uniform_sampler_sample_s": ev("draw", lambda p, st, a: p.V("u"))}
    sizes = [(3, 2), (4, 3), (1, 1)]
    dests = [(1, 1), (2, 1), (1, 2)]
    m = kernels([("w%d%d_%d%d_%d" % (sw, sh, dw, dh, md), fn, {0: dw, 1: dh, 3: 7, 4: sw, 5: sh, 7: sw + 2, 9: md}) for sw, sh in sizes for dw, dh in dests for md in range(5)], opaque=list(UNI), name="p13a")
    xs = [Fraction(v) for v in ("-9/4", "-1/4", "0", "1/2", "5/4", "2", "11/4", "3", "17/4", "27/4")]
    if th:
        xs += [Fraction(v) for v in ("-31/4", "-5", "-1", "1", "15/8", "9/2", "39/4", "12")]
    for sw, sh in sizes:
        for md in range(5):
            if (sw, sh) == (1, 1) and md in (BLACK, WHITE, NOISE):
                continue
            for dw, dh in dests:
                steps = ((Fraction(3, 2), Fraction(-3, 4), Fraction(5, 4), Fraction(1, 2)),) if (dw, dh) != (1, 1) else ((0, 0, 0, 0),)
                pos = [(x, y) for k, x in enumerate(xs) for y in ((xs[(3 * k + 1) % len(xs)], xs[(k + 4) % len(xs)]) if (dw, dh) == (1, 1) else (xs[(3 * k + 1) % len(xs)],))]
                if (sw, sh) == (1, 1):
                    pos = pos[:6]
                for x0, y0 in pos:
                    a, b, cc, d = steps[0]
                    inst = "%s(%dx%d from %dx%d, mode %d, start %s,%s)" % (fn, dw, dh, sw, sh, md, x0, y0)

                    def init(p, st):
                        for k, v in enumerate((a, b, 0, cc, d, 0, x0, y0, 1)):
                            st.mem["t_dest2src"] = Entry("store", p.K(4 * k), 4, p.K(v), st.mem.get("t_dest2src"))
                    try:
                        c = Case(m, "w%d%d_%d%d_%d" % (sw, sh, dw, dh, md), unroll=True, distinct=True, init=init, opaque=UNI)
                        P = lambda x, y: c.V("src[%d]" % (y * (sw + 2) + x)) if (x or y) else c.V("src[0]")
                        for st in c.parts:
                            wr = c.written(st, "dest")
                            rep.check(wr == {(y * 7 + x, 1) for x in range(dw) for y in range(dh)}, rule, inst + " pixels written", c.fn.where(), "writes %s" % sorted(wr, key=str)[:8])
                            for y in range(dh):
                                for x in range(dw):
                                    xp, yp = x0 + x * a + y * cc, y0 + x * b + y * d
                                    inside = 0 <= math.floor(xp) < sw - 1 and 0 <= math.floor(yp) < sh - 1
                                    got = c.outat(st, "dest", y * 7 + x, 1, "i8")
                                    ii = inst + " (%d,%d)" % (x, y)
                                    if md in (BLACK, WHITE, NOISE) and not inside:
                                        if md == NOISE:
                                            rep.check(isinstance(got, R) and strip_int(c, got) is not None and strip_int(c, got).same(c.V("u") * 255), rule, ii, c.fn.where(), "background %s" % got)
                                        else:
                                            rep.check(isinstance(got, R) and got.is_const() and int(got.cval()) % 256 == (255 if md == WHITE else 0), rule, ii, c.fn.where(), "background is %s" % got)
                                        continue
                                    if md == REPEAT:
                                        fx, fy = (lambda t: min(max(t, 0), sw - 1)), (lambda t: min(max(t, 0), sh - 1))
                                        # a position before the first or at/after the last pixel repeats the border
                                    elif md == MIRROR:
                                        fx, fy = (lambda t: mirror(t, sw - 1)), (lambda t: mirror(t, sh - 1))
                                    else:
                                        fx = fy = None
                                    judge(rep, rule, ii, c, st, got, bilinear(P, xp, yp, fx, fy))
                    except Unsupported as e:
                        rep.undecide(inst, e)


def rotate(rep):
    rule = "rotation"
    fn = "nx_image_rotate45"
    m = kernels([(fn, fn, None)], name="p13r")
    S = f32(1 / math.sqrt(2.0))
    for dt in (0, 1):
        for cw in (0, 1):
            for sw, sh, dw, dh in ((5, 4, 3, 3), (3, 3, 5, 4), (6, 4, 2, 3)):
                inst = "%s(%s, %dx%d from %dx%d, %s)" % (fn, ("8 bit", "float")[dt], dw, dh, sw, sh, "cw" if cw else "ccw")
                c0 = Ctx()

                def init(p, st):
                    img(p, st, "src", sw, sh, stride=sw + 2, dtype=dt)
                    img(p, st, "dest", dw, dh, stride=dw + 1, dtype=dt)
                try:
                    c = Case(m, fn, unroll=True, distinct=True, init=init, ctx=c0, argvals={2: R.const(c0, cw)}, max_parts=20000)
                    es, ty = (1, "i8") if dt == 0 else (4, "float")
                    P = lambda x, y: c.p._load(None, None, "pix(src)", c.K((y * (sw + 2) + x) * es), es, ty)
                    C = 1 if cw else -1
                    TX, TY = (sw - S * (dw + C * dh)) / 2, (sh + S * (C * dw - dh)) / 2
                    seen = set()
                    for st in c.parts:
                        wr = c.written(st, "pix(dest)")
                        rep.check(wr == {((y * (dw + 1) + x) * es, es) for x in range(dw) for y in range(dh)}, rule, inst + " pixels written", c.fn.where(), "writes %s" % sorted(wr, key=str)[:8])
                        for y in range(dh):
                            for x in range(dw):
                                xp, yp = (C * y + x) * S + TX, (y - C * x) * S + TY
                                if any(abs(v - round(v)) < Fraction(1, 1000) for v in (xp, yp)):
                                    continue       # rounding decides
                                got = c.outat(st, "pix(dest)", (y * (dw + 1) + x) * es, es, ty)
                                ii = inst + " (%d,%d)" % (x, y)
                                if not (0 <= math.floor(xp) < sw - 1 and 0 <= math.floor(yp) < sh - 1):
                                    rep.check(isinstance(got, R) and got.is_const() and got.cval() == 0, rule, ii, c.fn.where(), "background is %s" % got)
                                else:
                                    key = (ii, got.show() if isinstance(got, R) else str(got))
                                    if key in seen:
                                        continue
                                    seen.add(key)
                                    judge(rep, rule, ii, c, st, got, bilinear(P, xp, yp), dt == 0)
                except Unsupported as e:
                    rep.undecide(inst, e)


def processor(rep):
    """whole pipeline with the pixel loops as opaque stages: transforms compose and invert exactly"""
    rule = "warp processor"
    fn = "nx_affine_warp_processor_warp"
    OPQ = ["nx_affine_warp_processor_transformed_buffer_size", "warp_buffer_affine_bilinear", "warp_processor_blur", "fill_warp_buffer_bg", "nx_image_resize", "nx_image_set_zero"]
    m = kernels([(fn, fn, None)], opaque=OPQ, name="p13p")

    def size(p, i, st, a):
        k = num(st, "size")
        L = lambda q, n: [p._load(st, st.mem.get(q.base), q.base, q.off + p.K(8 * j), 8, "double") for j in range(n)]
        rd = lambda q: p._load(st, st.mem.get(q.base), q.base, q.off, 4, "i32")
        st.events.append(("size", rd(a[0]), rd(a[1]), a[2], a[3], a[4], L(a[5], 6)))
        for q, n in ((a[0], "W%d"), (a[1], "H%d")):
            st.mem[q.base] = Entry("store", q.off, 4, p.V(n % k), st.mem.get(q.base))

    def warp(p, i, st, a):
        L = [p._load(st, st.mem.get(a[2].base), a[2].base, a[2].off + p.K(4 * j), 4, "float") for j in range(9)]
        st.events.append(("warp", a[0], a[1], L))
    H = {"nx_affine_warp_processor_transformed_buffer_size": size, "warp_buffer_affine_bilinear": warp, "warp_processor_blur": ev("blur"), "fill_warp_buffer_bg": ev("bg"), "nx_image_set_zero": ev("zero")}

    def rs(p, i, st, a):
        st.events.append(("resize", a[0].base, tuple(a[1:])))
        set_field(p, st, a[0].base, "NXImage", "width", a[1])
        set_field(p, st, a[0].base, "NXImage", "height", a[2])
    H["nx_image_resize"] = rs

    def init(p, st):
        for k, f in enumerate(("skew_rotation_buffer", "subsample_buffer", "result_buffer")):
            set_field(p, st, "wp", "NXAffineWarpProcessor", f, Ptr("B%d" % k, p.K(0)))
        set_field(p, st, "wp", "NXAffineWarpProcessor", "bg_mode", p.V("mode"))
        set_field(p, st, "wp", "NXAffineWarpProcessor", "bg_color", p.V("color"))
    try:
        c = Case(m, fn, unroll=True, distinct=True, init=init, opaque=H)
    except Unsupported as e:
        rep.undecide(fn, e)
        return
    for st in c.parts:
        PA = lambda k: c.outat(st, "param", 8 * k, 8)
        scale, pa, tilt, ta = (PA(k) for k in range(4))
        W, Hh = c.V("img.width"), c.V("img.height")
        sz = [e for e in st.events if e[0] == "size"]
        wa = [e for e in st.events if e[0] == "warp"]
        bg = [e for e in st.events if e[0] == "bg"]
        if len(sz) != 3 or len(wa) != 3 or len(bg) != 1:
            rep.undecide(fn, "stages are organised differently: %d sizes, %d warps, %d backgrounds" % (len(sz), len(wa), len(bg)))
            return
        F = [c.outat(st, "wp", field_off(c.p, "NXAffineWarpProcessor", "forward_t")[0] + 8 * k, 8) for k in range(6)]
        G = [c.outat(st, "wp", field_off(c.p, "NXAffineWarpProcessor", "inverse_t")[0] + 8 * k, 8) for k in range(6)]
        comb = lambda a, b: [a[0] * b[0] + a[2] * b[1], a[1] * b[0] + a[3] * b[1], a[0] * b[2] + a[2] * b[3], a[1] * b[2] + a[3] * b[3], a[0] * b[4] + a[2] * b[5] + a[4], a[1] * b[4] + a[3] * b[5] + a[5]]
        for nm, X in (("forward after inverse", comb(F, G)), ("inverse after forward", comb(G, F))):
            for k, w in enumerate((1, 0, 0, 1, 0, 0)):
                eq(rep, rule, "%s[%d]" % (nm, k), c, st, X[k], w)
        ct, sn, cp, sp = fcos(c.ctx, ta), fsin(c.ctx, ta), fcos(c.ctx, pa), fsin(c.ctx, pa)
        z = c.K(0)
        A = comb([scale * cp, scale * sp, -scale * sp, scale * cp, z, z], comb([c.K(1) / tilt, z, z, c.K(1), z, z], [ct, sn, -sn, ct, z, z]))
        for k in range(4):
            eq(rep, rule, "forward transform[%d]" % k, c, st, F[k], A[k])
        im = comb(F, [z, z, z, z, W / 2, Hh / 2])
        eq(rep, rule, "centre maps to centre x", c, st, im[4], c.V("W2") / 2)
        eq(rep, rule, "centre maps to centre y", c, st, im[5], c.V("H2") / 2)
        # stage geometry
        one = c.K(1)
        for k, (sx, sy, an) in enumerate(((one, one, ta), (one / tilt, one, z), (scale, scale, pa))):
            e = sz[k]
            eq(rep, rule, "stage %d source width" % k, c, st, e[1], W)
            eq(rep, rule, "stage %d source height" % k, c, st, e[2], Hh)
            for nm, g, w in (("x scale", e[3], sx), ("y scale", e[4], sy), ("angle", e[5], an)):
                eq(rep, rule, "stage %d %s" % (k, nm), c, st, g, w)
        pre = [[one, z, z, one, z, z]]
        r = [e for e in st.events if e[0] == "resize"]
        for k in range(3):
            ok = any(e[1] == "B%d" % k and e[2][0].same(c.V("W%d" % k)) and e[2][1].same(c.V("H%d" % k)) for e in r)
            rep.check(ok, rule, "stage %d buffer size" % k, c.fn.where(), "buffer sizes %s" % [(e[1], str(e[2][0])) for e in r])
            src = "img" if k == 0 else "B%d" % (k - 1)
            rep.check(wa[k][1].base == src and wa[k][2].base == "B%d" % k, rule, "stage %d buffers" % k, c.fn.where(), "stage %d warps %s into %s" % (k, wa[k][1].base, wa[k][2].base))
            zi = [j for j, e in enumerate(st.events) if e[0] == "zero" and e[1][0].base == "B%d" % k]
            rep.check(bool(zi) and zi[0] < st.events.index(wa[k]), rule, "stage %d buffer cleared" % k, c.fn.where(), "buffer %d is not cleared before warping" % k)
        # the stage transforms compose to the inverse transform
        t6 = lambda L: [L[0], L[1], L[3], L[4], L[6], L[7]]
        T = comb(t6(wa[0][3]), comb(t6(wa[1][3]), t6(wa[2][3])))
        for k in range(6):
            eq(rep, rule, "stage warps compose to the inverse transform[%d]" % k, c, st, T[k], G[k])
        a = bg[0][1]
        rep.check(a[0].base == "img" and a[1].base == "B2", rule, "background buffers", c.fn.where(), "background from %s into %s" % (a[0].base, a[1].base))
        for k in range(6):
            eq(rep, rule, "background transform[%d]" % k, c, st, a[2 + k], G[k])
        eq(rep, rule, "background mode", c, st, a[8], c.V("mode"))
        eq(rep, rule, "background colour", c, st, a[9], c.V("color"))


def blur(rep):
    """smoothing between the stages: each direction with its own sigma, none for sigma zero"""
    rule = "warp processor"
    fn = "warp_processor_blur"
    W, H, S = 3, 2, 5

    def alloc(p, i, st, a):
        st.mem[a[5].base] = Entry("store", a[5].off, 4, p.K(3), st.mem.get(a[5].base))
        st.mem[a[6].base] = Entry("store", a[6].off, 4, p.K(5), st.mem.get(a[6].base))
        return Ptr("heapfb", p.K(0))

    def kern(p, i, st, a):
        st.events.append(("kernel", a[0], a[2], a[1]))

    def copy(one):
        def h(p, i, st, a):
            n, buf, src, stride, k, mode = (a[0], a[1], a[2], p.K(1), a[3], a[4]) if one else a
            if not isinstance(src, Ptr):
                raise Unsupported("filter source")
            st.events.append(("load", n, src, stride, k, mode))
        return h

    def conv(p, i, st, a):
        k = [e for e in st.events if e[0] == "kernel"]
        l = [e for e in st.events if e[0] == "load"]
        if not l or not k:
            st.events.append(("conv", a[0], a[2], a[3], None, None))
            return
        st.events.append(("conv", a[0], a[2], a[3], l[-1], k[-1]))
        if not a[0].is_const():
            raise Unsupported("filter length")
        q = num(st, "conv")
        for j in range(int(a[0].cval())):
            st.mem[a[1].base] = Entry("store", a[1].off + 4 * j, 4, p.V("f%d_%d" % (q, j)), st.mem.get(a[1].base))
    OP = {"nx_image_filter_buffer_alloc": alloc, "nx_kernel_sym_gaussian": kern, "nx_filter_copy_to_buffer1_uc": copy(True), "nx_filter_copy_to_buffer_uc": copy(False), "nx_convolve_sym": conv,
          "nx_xmalloc": lambda p, i, st, a: Ptr("heapk", p.K(0)), "nx_free": nothing}
    try:
        m = kernels([("bl", fn, None)], name="p13b", opaque=list(OP))
        for sx, sy in ((0, 0), (Fraction(3, 2), 0), (0, Fraction(5, 4)), (Fraction(3, 2), Fraction(5, 4))):
            inst = "%s(%s, %s)" % (fn, sx, sy)
            c0 = Ctx()
            K = lambda v: R.const(c0, tofrac(v))
            c = Case(m, "bl", unroll=True, distinct=True, init=lambda p, st: img(p, st, "image", W, H, stride=S), ctx=c0, opaque=OP, argvals={1: K(sx), 2: K(sy)})
            for st in c.parts:
                cv = [e for e in st.events if e[0] == "conv"]
                want = [("row", y) for y in range(H) if sx] + [("col", x) for x in range(W) if sy]
                got = []
                for e in cv:
                    l, k = e[4], e[5]
                    off = int(l[2].off.cval()) if l and l[2].off.is_const() else None
                    if off is None or l[2].base != "pix(image)":
                        got.append(("?", str(l)))
                        continue
                    if l[3].same(c.K(1)) and off % S == 0:
                        g, n, nk, sg = ("row", off // S), W, 3, sx
                    elif l[3].same(c.K(S)):
                        g, n, nk, sg = ("col", off), H, 5, sy
                    else:
                        got.append(("?", str(l)))
                        continue
                    got.append(g)
                    ok = e[1].same(c.K(n)) and l[1].same(c.K(n)) and l[4].same(c.K(nk // 2)) and e[2].same(c.K(nk // 2 + 1)) and k[1].same(c.K(nk // 2 + 1)) and k[2].same(c.K(sg)) and isinstance(e[3], Ptr) and e[3].base == k[3].base
                    rep.check(ok, rule, inst + " %s %d" % g, c.fn.where(), "%s %d is filtered with kernel %s, sigma %s" % (g[0], g[1], k[1], k[2]))
                rep.check(sorted(got) == sorted(want) and got[:len([w for w in want if w[0] == "row"])] == [w for w in want if w[0] == "row"], rule, inst + " lines", c.fn.where(), "smooths %s, expected %s" % (got, want))
                if sorted(got) != sorted(want):
                    continue
                last = {}
                for q, g in enumerate(got, 1):
                    n = W if g[0] == "row" else H
                    for j in range(n):
                        last[(j, g[1]) if g[0] == "row" else (g[1], j)] = "f%d_%d" % (q, j)
                for y in range(H):
                    for x in range(W):
                        v = c.outat(st, "pix(image)", y * S + x, 1, "i8")
                        if (x, y) in last:
                            a = strip_int(c, v)
                            rep.check(a is not None and a.same(c.V(last[(x, y)])), rule, inst + " (%d,%d)" % (x, y), c.fn.where(), "pixel is %s" % v)
                        else:
                            rep.check(not any(o == y * S + x for o, _ in c.written(st, "pix(image)")), rule, inst + " (%d,%d)" % (x, y), c.fn.where(), "pixel becomes %s" % v)
    except Unsupported as e:
        rep.undecide("warp blur", e)


def stages(rep, th):
    rule = "warp processor"
    # one stage: only positions inside are written
    try:
        m = kernels([("wb", "warp_buffer_affine_bilinear", None), ("bg", "fill_warp_buffer_bg", None)], name="p13s", opaque=["nx_uniform_sampler_instance", "nx_uniform_sampler_sample_s"])
        UNI = {"nx_uniform_sampler_instance": lambda p, i, st, a: Ptr("gs", p.K(0)), "nx_uniform_sampler_sample_s": ev("draw", lambda p, st, a: p.V("u"))}
        xs = [Fraction(v) for v in ("-5/4", "-1/4", "0", "1/2", "5/4", "2", "11/4", "3", "17/4")]
        for k, x0 in enumerate(xs):
            for y0 in (xs[(3 * k + 1) % len(xs)], xs[(k + 3) % len(xs)], Fraction(1, 2)):
                sw, sh, dw, dh = 5, 4, 2, 1
                a, b, cc, d = Fraction(3, 4), Fraction(1, 2), 0, 0
                inst = "warp_buffer_affine_bilinear start %s,%s" % (x0, y0)

                def init(p, st):
                    img(p, st, "in_buffer", sw, sh, stride=6)
                    img(p, st, "out_buffer", dw, dh, stride=3)
                    for k, v in enumerate((a, b, 0, cc, d, 0, x0, y0, 1)):
                        st.mem["t"] = Entry("store", p.K(4 * k), 4, p.K(v), st.mem.get("t"))
                c = Case(m, "wb", unroll=True, distinct=True, init=init)
                P = lambda x, y: c.p._load(None, None, "pix(in_buffer)", c.K(y * 6 + x), 1, "i8")
                for st in c.parts:
                    wr = c.written(st, "pix(out_buffer)")
                    for x in range(dw):
                        xp, yp = x0 + x * a, y0 + x * b
                        inside = 0 <= math.floor(xp) < sw - 1 and 0 <= math.floor(yp) < sh - 1
                        ii = inst + " (%d)" % x
                        rep.check(((x, 1) in wr) == inside, rule, ii + " written", c.fn.where(), "pixel at source %s,%s is%s written" % (xp, yp, "" if (x, 1) in wr else " not"))
                        if inside and (x, 1) in wr:
                            judge(rep, rule, ii, c, st, c.outat(st, "pix(out_buffer)", x, 1, "i8"), bilinear(P, xp, yp))
        FIXED, REP, NOI = 0, 1, 2
        for k, x0 in enumerate(xs):
            for y0 in (xs[(3 * k + 1) % len(xs)], Fraction(3, 2)):
                for mode in (FIXED, REP, NOI):
                    sw, sh = 5, 4
                    inst = "background mode %d at %s,%s" % (mode, x0, y0)
                    c0 = Ctx()

                    def init(p, st):
                        img(p, st, "image", sw, sh, stride=6)
                        img(p, st, "warp_buffer", 1, 1, stride=3)
                    K = lambda v: R.const(c0, tofrac(v))
                    c = Case(m, "bg", unroll=True, distinct=True, init=init, ctx=c0, opaque=UNI, argvals={2: K(1), 3: K(0), 4: K(0), 5: K(1), 6: K(x0), 7: K(y0), 8: K(mode), 9: K(77)})
                    P = lambda x, y: c.p._load(None, None, "pix(image)", c.K(y * 6 + x), 1, "i8")
                    inside = math.floor(x0) > 0 and math.floor(x0) + 1 < sw - 1 and math.floor(y0) > 0 and math.floor(y0) + 1 < sh - 1
                    for st in c.parts:
                        wr = c.written(st, "pix(warp_buffer)")
                        got = c.outat(st, "pix(warp_buffer)", 0, 1, "i8")
                        if inside:
                            rep.check(not wr, rule, inst, c.fn.where(), "overwrites an inside pixel with %s" % got)
                        elif mode == FIXED:
                            rep.check(isinstance(got, R) and got.same(c.K(77)), rule, inst, c.fn.where(), "background is %s" % got)
                        elif mode == NOI:
                            rep.check(isinstance(got, R) and strip_int(c, got) is not None and strip_int(c, got).same(c.V("u") * 255), rule, inst, c.fn.where(), "background is %s" % got)
                        else:
                            xi, yi = int(x0), int(y0)
                            fx = lambda t: 0 if xi <= 0 else sw - 1 if xi + 1 >= sw - 1 else t
                            fy = lambda t: 0 if yi <= 0 else sh - 1 if yi + 1 >= sh - 1 else t
                            judge(rep, rule, inst, c, st, got, bilinear(P, x0, y0, fx, fy))
    except Unsupported as e:
        rep.undecide("warp stages", e)
    # result size covers the transformed corners
    inst = "nx_affine_warp_processor_transformed_buffer_size"
    try:
        m = kernels([("ts", inst, None)], name="p13t")
        for axis in (0, 1):
            c0 = Ctx()
            K = lambda v: R.const(c0, tofrac(v))

            def init(p, st):
                st.mem["width"] = Entry("store", p.K(0), 4, p.V("w"), None)
                st.mem["height"] = Entry("store", p.K(0), 4, p.V("h"), None)
                for k in range(6):
                    v = p.V("t%d" % k) if k % 2 == axis else p.K(0)
                    st.mem["current_t"] = Entry("store", p.K(8 * k), 8, v, st.mem.get("current_t"))
            # the other axis is kept at zero so that only one pair of extremes is compared
            c = Case(m, "ts", unroll=True, distinct=True, init=init, ctx=c0, max_parts=20000, argvals={4: K(0)})
            for st in c.parts:
                t = [c.V("t%d" % k) if k % 2 == axis else c.K(0) for k in range(6)]
                sc = c.V("scale_x") if axis == 0 else c.V("scale_y")
                w, h = c.V("w"), c.V("h")
                pts = [sc * (x * t[axis] + y * t[2 + axis] + t[4 + axis]) for x in (c.K(0), w) for y in (c.K(0), h)]
                out = c.outat(st, "width" if axis == 0 else "height", 0, 4, "i32")
                oth = c.outat(st, "height" if axis == 0 else "width", 0, 4, "i32")
                rep.check(oth.same(c.K(2)), rule, inst + " empty axis", c.fn.where(), "size %s" % oth)
                v = strip_int(c, out)
                if v is None and out.is_const():
                    v = out
                cand = [(i, j) for i in range(4) for j in range(4) if v is not None and v.same(pts[i] - pts[j] + 2)]
                n = 4
                ge = [[not (c.p.sign_under(st.cons, pts[i] - pts[j]) & NEG) for j in range(n)] for i in range(n)]
                for q in range(n):
                    for i in range(n):
                        for j in range(n):
                            ge[i][j] = ge[i][j] or ge[i][q] and ge[q][j]
                ok = any(all(ge[i][q] for q in range(4)) and all(ge[q][j] for q in range(4)) for i, j in cand)
                if not ok and cand and any(ge[i][j] and ge[j][i] and not pts[i].same(pts[j]) and c.p.sign_under(st.cons, pts[i] - pts[j]) == POS for i in range(4) for j in range(4)):
                    continue       # contradictory comparisons
                rep.check(ok, rule, inst + " axis %d" % axis, c.fn.where(), "size %s is not the extent of the corners plus two (when %s)" % (out, guard_text(st)[:200]))
    except Unsupported as e:
        rep.undecide(inst, e)


def checkers(rep):
    rule = "checkerboard"
    OPQ = ["nx_image_alloc", "nx_image_free", "nx_image_resize", "nx_filter_buffer_alloc", "nx_image_filter_box_x", "nx_image_filter_box_y", "nx_image_rotate45", "nx_free", "nx_image_smooth"]
    m = kernels([(f, f, None) for f in ("nx_checkers_local_radon_images", "nx_checkers_score_image")], opaque=OPQ, name="p13c")

    def rs(p, i, st, a):
        st.events.append(("resize", a[0].base, tuple(a[1:])))
        img(p, st, a[0].base, a[1], a[2], stride=6, dtype=a[5], ty=a[4])
    H = {"nx_image_alloc": ev("alloc", lambda p, st, a: Ptr("heapn%d" % num(st, "alloc"), p.K(0))), "nx_image_free": ev("ifree"), "nx_image_resize": rs,
         "nx_filter_buffer_alloc": ev("buf", lambda p, st, a: Ptr("heapbuf", p.K(0))), "nx_image_filter_box_x": ev("boxx"), "nx_image_filter_box_y": ev("boxy"), "nx_image_rotate45": ev("rot"), "nx_free": ev("free"), "nx_image_smooth": ev("smooth")}
    for w, h in ((40, 30), (7, 60)):
        inst = "nx_checkers_local_radon_images(%dx%d)" % (w, h)

        def init(p, st):
            img(p, st, "img", w, h)
            for k in range(4):
                ptr_at(p, st, "lr_images", 8 * k, Ptr("heapL%d" % k if k % 2 else "null", p.K(0)))
        try:
            c = Case(m, "nx_checkers_local_radon_images", unroll=True, distinct=True, init=init, opaque=H)
            for st in c.parts:
                L = [c.outat(st, "lr_images", 8 * k, 8, "ptr").base for k in range(4)]
                if not rep.check(len(set(L)) == 4 and "null" not in L, rule, inst + " images", c.fn.where(), "images %s" % L):
                    continue
                # provenance of every image: sequence of operations applied to the input
                prov = {"img": ()}
                bad = None
                buf = [e[1] for e in st.events if e[0] == "buf"]
                for e in st.events:
                    if e[0] in ("boxx", "boxy", "rot"):
                        d, s = e[1][0].base, e[1][1].base
                        if s not in prov:
                            bad = "%s reads %s before it is computed" % (e[0], s)
                            break
                        prov[d] = prov[s] + ((e[0], int(e[1][2].cval())) if e[0] == "rot" else (e[0], e[1][2].show()),)
                        if e[0] != "rot":
                            dim = e[1][3]
                rep.check(bad is None, rule, inst + " order", c.fn.where(), bad or "")
                if bad:
                    continue
                r = "sum_radius"
                want = {(("boxx", r),), (("boxy", r),), (("rot", 1), ("boxx", r), ("rot", 0)), (("rot", 0), ("boxx", r), ("rot", 1))}
                got = [prov.get(x) for x in L]
                norm = lambda q: tuple(("rot", 1 if x[1] else 0) if x[0] == "rot" else x for x in q) if q is not None else None
                rep.check({norm(q) for q in got} == want, rule, inst + " four directions", c.fn.where(), "images are %s" % (got,))
                sizes = [e for e in st.events if e[0] == "resize"]
                rep.check(all(any(e[1] == x and e[2][0].same(c.K(w)) and e[2][1].same(c.K(h)) for e in sizes) for x in L), rule, inst + " sizes", c.fn.where(), "result images are not sized like the input")
                tmp = [e for e in sizes if e[1] not in L]
                diag = math.hypot(w, h)
                if len(buf) == 1 and buf[0][0].is_const() and len(tmp) == 1 and tmp[0][2][0].is_const():
                    td = int(tmp[0][2][0].cval())
                    need = (w + h) / math.sqrt(2)
                    rep.check(buf[0][0].cval() >= max(w, h, td) and td >= math.floor(need) and tmp[0][2][1].same(tmp[0][2][0]) and buf[0][1].same(c.V("sum_radius")), rule, inst + " buffers", c.fn.where(),
                              "filter buffer for %s samples, rotated image %s" % (buf[0][0], td))
                fr = [e[1][0].base for e in st.events if e[0] == "ifree"]
                rep.check(fr == [e[1] for e in tmp], rule, inst + " temporary released", c.fn.where(), "releases %s" % fr)
        except Unsupported as e:
            rep.undecide(inst, e)
    inst = "nx_checkers_score_image"
    try:
        def init(p, st):
            for k in range(4):
                ptr_at(p, st, "lr_images", 8 * k, Ptr("l%d" % k, p.K(0)))
                img(p, st, "l%d" % k, 1, 2, stride=3 + k)
        c = Case(m, inst, unroll=True, distinct=True, init=init, opaque=H, max_parts=20000)
        for st in c.parts:
            r = [e for e in st.events if e[0] == "resize"]
            rep.check(len(r) == 1 and r[0][2][0].same(c.K(1)) and r[0][2][1].same(c.K(2)) and r[0][2][4].same(c.K(1)), rule, inst + " size", c.fn.where(), "resize %s" % r)
            sm = [e for e in st.events if e[0] == "smooth"]
            rep.check(len(sm) == 1 and sm[0][1][0].base == "score_img" == sm[0][1][1].base, rule, inst + " smoothing", c.fn.where(), "%d smoothing calls" % len(sm))
            for y in range(2):
                P = [c.p._load(None, None, "pix(l%d)" % k, c.K(y * (3 + k)), 1, "i8") for k in range(4)]
                got = c.outat(st, "pix(score_img)", 4 * 6 * y, 4, "float")
                cand = [(i, j) for i in range(4) for j in range(4) if isinstance(got, R) and got.same((P[i] - P[j]) * (P[i] - P[j]) / (255 * 255))]
                ge = [[i == j or not (c.p.sign_under(st.cons, P[i] - P[j]) & NEG) for j in range(4)] for i in range(4)]
                for q in range(4):
                    for i in range(4):
                        for j in range(4):
                            ge[i][j] = ge[i][j] or ge[i][q] and ge[q][j]
                ok = any(all(ge[i][q] for q in range(4)) and all(ge[q][j] for q in range(4)) for i, j in cand)
                if not ok and any(c.p.sign_under(st.cons, P[i] - P[j]) == POS and ge[j][i] for i in range(4) for j in range(4) if i != j):
                    continue      # contradictory comparisons
                rep.check(ok, rule, inst + " row %d" % y, c.fn.where(), "response %s is not the squared range (when %s)" % (got, guard_text(st)[:200]))
    except Unsupported as e:
        rep.undecide(inst, e)
