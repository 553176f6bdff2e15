"""Filtering: exact linear forms of the filter routines for a family of sizes, all data symbolic."""
from vlib.pix import *

LEVEL = "bounded"
NN = POS | ZERO
MODES = ["ZERO", "REPEAT", "MIRROR"]
COPY = [("nx_filter_copy_to_buffer1_uc", 1, False), ("nx_filter_copy_to_buffer_uc", 1, True), ("nx_filter_copy_to_buffer1", 4, False), ("nx_filter_copy_to_buffer", 4, True)]


def run(rep):
    thorough = rep.tier == "thorough"
    rep.assumptions = ["sizes are those enumerated (data length, kernel radius, image size, stride); every pixel/sample value is symbolic",
                       "real arithmetic; float rounding not modelled"]
    m0 = kernels([("nx_kernel_size_gaussian", "nx_kernel_size_gaussian", None), ("nx_filter_buffer_alloc", "nx_filter_buffer_alloc", None)], name="p07a",
                 opaque=["nx_xaligned_alloc", "nx_xmalloc", "nx_xcalloc"])
    mode = m0.enum("NXBorderMode") or {}
    specs = []
    gs = [(nk,) for nk in (2, 3, 4, 6)]
    conv = [(n, r) for n in (2, 3, 5, 8) for r in (1, 2, 3)]
    cps = [(n, b) for n in (2, 3, 5) for b in (1, 2, 3, 4)]
    if thorough:
        conv = [(n, r) for n in range(1, 14) for r in range(1, 7)]
        cps = [(n, b) for n in range(1, 9) for b in range(1, 9)]
    for (nk,) in gs:
        specs.append(("gk%d" % nk, "nx_kernel_sym_gaussian", {0: nk}))
    for n, r in conv:
        specs.append(("cs%d_%d" % (n, r), "nx_convolve_sym", {0: n, 2: r + 1}))
        specs.append(("cb%d_%d" % (n, r), "nx_convolve_box", {0: n, 2: r}))
    for f, es, strided in COPY:
        for n, b in cps:
            for k in MODES:
                if k == "MIRROR" and b >= n:
                    continue
                specs.append(("%s_%d_%d_%s" % (f, n, b, k), f, {0: n, (4 if strided else 3): b, (5 if strided else 4): mode.get("NX_BORDER_" + k, 0)}))
    m = kernels(specs, name="p07")
    where = {}

    def eqs(inst, c, st, vals):
        for label, a, e in vals:
            good = isinstance(a, R) and a.same(e)
            if not good and isinstance(a, R) and differ(c.ctx, a, e, st.cons) is False:
                rep.undecide(inst, a.show()[:200])
                continue
            rep.check(good, "filter formula", "%s %s" % (inst, label), c.fn.where(),
                      "computes %s, the definition is %s" % (a.show()[:240] if isinstance(a, R) else a, e.show()[:240]))

    def each(alias, inst, fn):
        try:
            c = Case(m, alias, unroll=True)
            for st in c.parts:
                fn(c, st)
        except (Unsupported, ZeroDivisionError) as e:
            rep.undecide(inst, e)

    def clean(c, st, base, lo, hi, inst):
        bad = [x for x in c.written(st, base) if x[0] == "sym" or x[0] < lo or x[0] + x[1] > hi]
        bad += [b for b in st.mem if not b.startswith(("alloca", "heap")) and b != base and c.written(st, b)]
        rep.check(not bad, "writes stay in the buffer", inst, c.fn.where(), "writes at %s" % bad[:4])

    for (nk,) in gs:
        def f(c, st):
            s = c.V("sigma")
            g = [c.K(1)] + [app(c.ctx, "exp", c.K(tofrac(-0.5)) * i * i / (s * s)) for i in range(1, nk)]
            tot = g[0]
            for x in g[1:]:
                tot = tot + x * 2
            inst = "nx_kernel_sym_gaussian(n_k=%d)" % nk
            eqs(inst, c, st, [("[%d]" % i, c.out(st, "kernel", i, 4, "float"), g[i] / tot) for i in range(nk)])
            clean(c, st, "kernel", 0, 4 * nk, inst)
        each("gk%d" % nk, "gaussian kernel", f)
    for n, r in conv:
        def f(c, st):
            D = c.arr("data", n + 2 * r)
            k = c.arr("kernel", r + 1)
            inst = "nx_convolve_sym(n=%d, n_k=%d)" % (n, r + 1)
            vals = []
            for i in range(n):
                e = k[0] * D[i + r]
                for j in range(1, r + 1):
                    e = e + k[j] * (D[i + r - j] + D[i + r + j])
                vals.append(("[%d]" % i, c.out(st, "data", i, 4, "float"), e))
            eqs(inst, c, st, vals)
            clean(c, st, "data", 0, 4 * (n + 2 * r), inst)
        each("cs%d_%d" % (n, r), "nx_convolve_sym", f)

        def f(c, st):
            D = c.arr("data", n + 2 * r)
            inst = "nx_convolve_box(n=%d, n_r=%d)" % (n, r)
            vals = []
            for i in range(n):
                e = c.K(0)
                for j in range(2 * r + 1):
                    e = e + D[i + j]
                vals.append(("[%d]" % i, c.out(st, "data", i, 4, "float"), e / c.K(2 * r + 1)))
            eqs(inst, c, st, vals)
            clean(c, st, "data", 0, 4 * (n + 2 * r), inst)
        each("cb%d_%d" % (n, r), "nx_convolve_box", f)
    for fn, es, strided in COPY:
        for n, b in cps:
            for k in MODES:
                if k == "MIRROR" and b >= n:
                    continue

                def f(c, st):
                    inst = "%s(n=%d, border=%d, %s)" % (fn, n, b, k)
                    ty = "i8" if es == 1 else "float"
                    step = c.V("stride") if strided else c.K(1)
                    rd = lambda i: c.p._load(st, None, "data", step * i * es, es, ty)
                    vals = []
                    for i in range(n + 2 * b):
                        j = i - b
                        if j < 0:
                            e = c.K(0) if k == "ZERO" else rd(0) if k == "REPEAT" else rd(-j)
                        elif j >= n:
                            e = c.K(0) if k == "ZERO" else rd(n - 1) if k == "REPEAT" else rd(2 * (n - 1) - j)
                        else:
                            e = rd(j)
                        vals.append(("[%d]" % i, c.out(st, "buffer", i, 4, "float"), e))
                    eqs(inst, c, st, vals)
                    clean(c, st, "buffer", 0, 4 * (n + 2 * b), inst)
                each("%s_%d_%d_%s" % (fn, n, b, k), fn, f)
    ksize(rep, m0)
    balloc(rep, m0)
    images(rep, thorough)
    rep.need("filter formula", 150)
    rep.need("image filter formula", 40)


def ksize(rep, m):
    n = "nx_kernel_size_gaussian"
    try:
        c = Case(m, n)
    except Unsupported as e:
        rep.undecide(n, e)
        return
    base = app(c.ctx, "int", c.V("sigma") * c.V("kernel_truncation_factor") * 2 + 1)
    rem = app(c.ctx, "irem", base, c.K(2))
    for st in c.parts:
        r = st.ret
        sr = c.p.sign_under(st.cons, rem)
        if not isinstance(r, R):
            rep.undecide(n, "value %s" % r)
            continue
        if r.same(3):
            # right when the odd size is at most 3
            good = not c.p.sign_under(st.cons, base - 3) & POS
            why = "3 although the support may be longer"
        elif r.same(base):
            good = not sr & ZERO and not c.p.sign_under(st.cons, base - 3) & NEG
            why = "the size may be even or below 3"
        elif r.same(base + 1):
            good = sr == ZERO and not c.p.sign_under(st.cons, base + 1 - 3) & NEG
            why = "the size may be even or below 3"
        else:
            if any(v.startswith(("int(", "irem(", "or(", "and(")) for v in r.vars()):
                # another way of writing it: compare values
                good = not even_witness(c, r, base, st.cons)
            else:
                good = False
            why = "returns %s" % r.show()
        rep.check(good, "kernel size is odd, at least 3 and covers the support", n, c.fn.where(), "%s when %s" % (why, guard_text(st)))


def even_witness(c, r, base, cons):
    import random
    from vlib.kern import _val
    rnd = random.Random(2)
    for _ in range(300):
        env = {}
        try:
            # admissible inputs: positive sigma and truncation factor
            for nm in ("sigma", "kernel_truncation_factor"):
                env[c.ctx.sym(nm)] = Fraction(rnd.randint(1, 2000), 160)
            ok = all((ZERO if v == 0 else POS if v > 0 else NEG) & m for e, m in cons for v in [_val(c.ctx, e, env, rnd, set())])
            if not ok:
                continue
            b = _val(c.ctx, base, env, rnd, set())
            v = _val(c.ctx, r, env, rnd, set())
            want = max(3, b if b % 2 else b + 1)
            if v != want:
                return True
        except ZeroDivisionError:
            pass
    return False


def balloc(rep, m):
    n = "nx_filter_buffer_alloc"
    seen = []

    def al(p, i, st, a):
        st.events.append(("alloc", a))
        return Ptr("heap%d" % i.id, p.K(0))
    try:
        c = Case(m, n, opaque={"nx_xaligned_alloc": al, "nx_xmalloc": al, "nx_xcalloc": al})
    except Unsupported as e:
        rep.undecide(n, e)
        return
    want = (c.V("n") + c.V("n_border") * 2) * 4
    for st in c.parts:
        ev = [e for e in st.events if e[0] == "alloc"]
        if len(ev) != 1:
            rep.violate("filter buffer holds data and both borders", n, c.fn.where(), "%d allocations" % len(ev))
            continue
        sz = ev[0][1][-1]
        # sizes rounded up to the alignment: evaluate size - wanted >= 0 as idiv(x,a)*a + a > x
        ok = sz.same(want)
        if not ok:
            al_ = ev[0][1][0]
            q = app(c.ctx, "idiv", want, al_)
            ok = sz.same((q + 1) * al_) or (sz.same(q * al_) and c.p.sign_under(st.cons, app(c.ctx, "irem", want, al_)) == ZERO)
        if not ok and smaller(c, sz, want, st.cons) is False:
            rep.undecide(n, sz.show())
            continue
        rep.check(ok, "filter buffer holds data and both borders", n, c.fn.where(), "allocates %s bytes for %s" % (sz.show(), want.show()))


def smaller(c, sz, want, cons):
    import random
    from vlib.kern import _val
    rnd = random.Random(3)
    hits = 0
    for _ in range(400):
        env = {c.ctx.sym(nm): Fraction(rnd.randint(0, 300)) for nm in ("n", "n_border")}
        try:
            if not all((ZERO if v == 0 else POS if v > 0 else NEG) & m for e, m in cons for v in [_val(c.ctx, e, env, rnd, set())]):
                continue
            hits += 1
            if _val(c.ctx, sz, env, rnd, set()) < _val(c.ctx, want, env, rnd, set()):
                return True
        except ZeroDivisionError:
            pass
    return False if hits else None


def images(rep, thorough):
    """nx_image_smooth / nx_image_filter_box(_x,_y) on small images with distinct strides"""
    names = ["nx_image_smooth", "nx_image_filter_box_x", "nx_image_filter_box_y", "nx_image_filter_box"]
    m = kernels([(n, n, None) for n in names], name="p07i", opaque=list(HANDLERS) + ["nx_kernel_size_gaussian", "nx_kernel_sym_gaussian", "nx_xaligned_alloc"])
    W, H = 4, 3
    sizes = {"sigma_x": 3, "sigma_y": 5}
    confs = [(n, t, alias, own) for n in names for t in ("uc", "f32") for alias in (False, True) for own in (False, True)]
    for n, t, alias, own in confs:
        inst = "%s (%s%s%s)" % (n, t, ", in place" if alias else "", ", caller's buffer" if own else "")
        es = 1 if t == "uc" else 4
        SS = 7

        def img(p, st, base, stride):
            for f, v in (("width", W), ("height", H), ("type", 0), ("dtype", 0 if t == "uc" else 1), ("n_channels", 1), ("row_stride", stride)):
                set_field(p, st, base, "NXImage", f, p.K(v))
            set_field(p, st, base, "NXImage", "data", Ptr("pix(%s)" % base, p.K(0)))

        def init(p, st):
            img(p, st, "src", SS)
            if not alias:
                set_field(p, st, "dest", "NXImage", "data", Ptr("old(dest)", p.K(0)))

        def resize(p, i, st, a):
            resize_handler(p, i, st, a)
            set_field(p, st, a[0].base, "NXImage", "row_stride", p.K(5))
            set_field(p, st, a[0].base, "NXImage", "n_channels", p.K(1))
            return None

        def like(p, i, st, a):
            g = lambda f: get_field(p, st, a[1].base, "NXImage", f)
            return resize(p, i, st, [a[0], g("width"), g("height"), p.K(0), g("type"), g("dtype")])

        def ksz(p, i, st, a):
            for k, v in sizes.items():
                if a[0].same(p.V(k)):
                    return p.K(v)
            raise Unsupported("kernel size of %s" % a[0].show())

        def ker(p, i, st, a):
            nk, dst, s = a
            tag = s.show()
            if not nk.is_const():
                raise Unsupported("kernel length")
            for q in range(int(nk.cval())):
                p.store(st, Ptr(dst.base, dst.off + 4 * q), 4, p.V("g%d_%s(%s)" % (q, int(nk.cval()), tag)))

        def alc(p, i, st, a):
            st.events.append(("buffer", a[-1]))
            return Ptr("heapbuf%d" % i.id, p.K(0))
        h = dict(HANDLERS)
        h.update({"nx_image_resize": resize, "nx_image_resize_like": like, "nx_kernel_size_gaussian": ksz, "nx_kernel_sym_gaussian": ker, "nx_xaligned_alloc": alc})
        fn = m.functions.get("vk$" + n)
        if fn is None:
            rep.undecide(n, "not found")
            continue
        av = {}
        K0 = None
        from vlib.poly import Ctx
        ctx = Ctx()
        kk = lambda v: R.const(ctx, v)
        if alias:
            av[0] = Ptr("src", kk(0))
        last = len(fn.args) - 1
        av[last] = Ptr("heapuser", kk(0)) if own else Ptr("null", kk(0))
        rad = {}
        if n == "nx_image_smooth":
            pass
        elif n == "nx_image_filter_box":
            av[2], av[3] = kk(1), kk(2)
            rx, ry = 1, 2
        else:
            av[2] = kk(2)
            rx, ry = (2, None) if n.endswith("_x") else (None, 2)
        try:
            c = Case(m, n, opaque=h, argvals=av, init=init, ctx=ctx, deadline=120, unroll=True, distinct=True)
        except (Unsupported, ZeroDivisionError) as e:
            rep.undecide(inst, e)
            continue
        for st in c.parts:
            out = "src" if alias else "dest"
            S = SS if alias else 5
            ty = "i8" if t == "uc" else "float"
            cut = (lambda e: app(ctx, "int", e)) if t == "uc" else (lambda e: e)
            P = [[c.p._load(st, None, "pix(src)", c.K((y * SS + x) * es), es, ty) for x in range(W)] for y in range(H)]
            cl = lambda v, hi: min(max(v, 0), hi)

            def weights(kind, r, tag):
                if kind == "box":
                    return {d: c.K(1) / c.K(2 * r + 1) for d in range(-r, r + 1)}
                return {d: c.V("g%d_%d(%s)" % (abs(d), r + 1, tag)) for d in range(-r, r + 1)}
            if n == "nx_image_smooth":
                wx, wy = weights("g", 1, "sigma_x"), weights("g", 2, "sigma_y")
            else:
                wx = weights("box", rx, "") if rx else None
                wy = weights("box", ry, "") if ry else None
            if wx:
                P = [[cut(sum((P[y][cl(x + d, W - 1)] * w for d, w in wx.items()), start=c.K(0))) for x in range(W)] for y in range(H)]
            if wy:
                P = [[cut(sum((P[cl(y + d, H - 1)][x] * w for d, w in wy.items()), start=c.K(0))) for x in range(W)] for y in range(H)]
            try:
                for y in range(H):
                    for x in range(W):
                        a = c.outat(st, "pix(%s)" % out, (y * S + x) * es, es, ty)
                        good = isinstance(a, R) and a.same(P[y][x])
                        if not good and isinstance(a, R) and differ(ctx, a, P[y][x], st.cons) is False:
                            rep.undecide(inst, a.show()[:200])
                            continue
                        rep.check(good, "image filter formula", "%s: row %d column %d" % (inst, y, x), c.fn.where(),
                                  "computes %s, the definition is %s" % (a.show()[:200] if isinstance(a, R) else a, P[y][x].show()[:200]))
                bad = [w for b in st.mem if b.startswith("pix(") for w in c.written(st, b)
                       if b != "pix(%s)" % out or w[0] == "sym" or w[0] % (S * es) + w[1] > W * es or w[0] >= H * S * es]
                rep.check(not bad, "writes stay in the buffer", inst, c.fn.where(), "writes at %s" % bad[:4])
                nul = [w for b in st.mem if b == "null" for w in c.written(st, b)]
                rep.check(not nul, "writes stay in the buffer", inst + ": a work buffer exists", c.fn.where(), "writes through a null buffer at %s" % nul[:4])
                if not alias:
                    rs = [e for e in st.events if e[0] == "resize" and e[1] == "dest"]
                    ok = bool(rs) and all(x.same(y) for x, y in zip([rs[-1][2][k] for k in (0, 1, 3, 4)], (W, H, 0, 0 if t == "uc" else 1)))
                    rep.check(ok, "image filter formula", inst + ": result size and type", c.fn.where(), "resized to %s" % [[x.show() for x in e[2]] for e in rs])
                bmax = max([w[0] + w[1] if w[0] != "sym" else 10 ** 9 for b in st.mem if b.startswith(("heapbuf", "heapuser")) for w in c.written(st, b)] or [0])
                need = {"nx_image_smooth": max(W, H) + 4, "nx_image_filter_box": max(W, H) + 4, "nx_image_filter_box_x": W + 4, "nx_image_filter_box_y": H + 4}[n] * 4
                rep.check(bmax <= need, "writes stay in the buffer", inst + ": filter buffer", c.fn.where(), "%d bytes of a %d byte buffer are written" % (bmax, need))
                for e in st.events:
                    if e[0] == "buffer":
                        rep.check(e[1].is_const() and e[1].cval() >= bmax, "writes stay in the buffer", inst + ": allocated buffer", c.fn.where(), "allocates %s, writes %d bytes" % (e[1].show(), bmax))
            except Unsupported as e:
                rep.undecide(inst, e)
