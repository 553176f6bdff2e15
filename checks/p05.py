"""Image pixel operations: every result pixel is written, with the defining formula, for any size and row stride."""
from vlib.pix import *

LEVEL = "proof"
NN = POS | ZERO
OPS = """nx_image_downsample_uc nx_image_downsample_f32 nx_image_upsample_uc nx_image_upsample_f32 nx_image_downsample_aa_x_uc
nx_image_downsample_aa_x_f32 nx_image_downsample_aa_y_uc nx_image_downsample_aa_y_f32 nx_image_deriv_x_uc nx_image_deriv_x_f32
nx_image_deriv_y_uc nx_image_deriv_y_f32 nx_image_scale_uc nx_image_scale_f32""".split()
DISPATCH = "downsample upsample downsample_aa_x downsample_aa_y deriv_x deriv_y scale".split()
OTHER = """nx_image_axpy_uc nx_image_axpy_f32 nx_image_axpy nx_image_subtract nx_image_convert_dtype nx_image_apply_colormap""".split()
BOOK = "nx_image_resize nx_image_resize_like nx_image_copy nx_image_wrap nx_image_swap nx_image_release nx_image_alloc".split()


def run(rep):
    rep.assumptions = ["images are at least 2 pixels (downsampling with smoothing: 4) in each direction where an operation needs neighbours",
                       "source and result images are distinct and do not overlap", "real/integer arithmetic without overflow; float rounding not modelled"]
    h = dict(HANDLERS)
    h["nx_image_copy"] = lambda p, i, st, a: st.events.append(("copy", a[0].base, a[1].base))

    def cmap(p, i, st, a):
        for t, nm in zip(a[:3], "rgb"):
            if not isinstance(t, Ptr):
                raise Unsupported("colour map result")
            p.store(st, t, 1, app(p.ctx, "cmap_" + nm, a[3], a[4]))
    h["nx_color_map_apply"] = cmap
    names = OPS + ["nx_image_" + d for d in DISPATCH] + OTHER
    m = kernels([(n, n, None) for n in names], opaque=list(h), name="p05")
    nk = [0]

    cases = {}

    def case(n):
        if n not in cases:
            try:
                cases[n] = Case(m, n, opaque=h)
                nk[0] += 1
            except (Unsupported, ZeroDivisionError) as e:
                rep.undecide(n, e)
                cases[n] = None
        return cases[n]

    def src(c, st, name, es, ty):
        """pixel reader of a source image"""
        S = c.V(name + ".row_stride")

        def at(y, x):
            return c.p._load(st, None, "*%s.data" % name, (S * y + x) * es, es, ty)
        return at

    def judge(n, c, base, es, stride, H, W, pix, extra, label=None):
        """pix(y, x, cs, st) -> acceptable values"""
        inst = label or n
        im = Img(c, base, es, stride, extra)
        try:
            bad = im.full(H, W)
            rep.check(bad is None, "every result pixel written", inst, c.fn.where(), bad or "")
            seen = set()
            for y, x, v, cs, st in im.pieces:
                key = (y.show(), x.show(), v.show() if isinstance(v, R) else repr(v), guard_text(st))
                if key in seen:
                    continue
                seen.add(key)
                exp = pix(y, x, cs, st)
                if exp is None:
                    continue
                exp = exp if isinstance(exp, list) else [exp]
                good = isinstance(v, R) and any(v.same(e) for e in exp)
                if not good and isinstance(v, R) and any(differ(c.ctx, v, e, cs) is False for e in exp):
                    rep.undecide(inst, "another form of the definition: %s" % v.show()[:200])
                    continue
                rep.check(good, "pixel formula", "%s: row %s, column %s" % (inst, y.show(), x.show()), c.fn.where(),
                          "writes %s, the definition is %s (when %s)" % (v.show()[:260] if isinstance(v, R) else v, exp[0].show()[:260] if exp else "(none)", guard_text(st)[:200]))
        except Gap as g:
            rep.violate("every result pixel written", inst, c.fn.where(), str(g))
        except Unsupported as e:
            rep.undecide(inst, e)

    def resized(n, c, base, w, hh, ty, dt, extra):
        for st in c.parts:
            im = Img(c, base, 1, "x", extra)
            cs = im.cons(st)
            if cs is None:
                continue
            ev = [e for e in st.events if e[0] == "resize" and e[1] == base]
            good = bool(ev) and all(im.zero(cs, g - e) for g, e in zip([ev[-1][2][k] for k in (0, 1, 3, 4)], (w, hh, ty, dt)))
            rep.check(good, "result has the defined size and type", n, c.fn.where(), "resized to %s" % [[v.show() for v in e[2]] for e in ev])

    # ---- resampling, derivatives
    def ops(n, kind, t, extra0=()):
        c = case(n)
        if c is None:
            return
        V, K = c.V, c.K
        W, H = V("src.width"), V("src.height")
        ty, es = ("i8", 1) if t == "uc" else ("float", 4)
        des = es
        half = lambda a: app(c.ctx, "idiv", a, K(2))
        wrap = (lambda e: app(c.ctx, "int", e)) if t == "uc" else (lambda e: e)
        ex = list(extra0) + [(W - 2, NN), (H - 2, NN)]
        fdt = V("src.dtype") if not extra0 else V("src.dtype")
        dW, dH, dt = W, H, V("src.dtype")
        if kind == "downsample":
            dW, dH = half(W), half(H)
        elif kind == "upsample":
            dW, dH = W * 2, H * 2
        elif kind == "downsample_aa_x":
            dW = half(W)
        elif kind == "downsample_aa_y":
            dH = half(H)
        elif kind.startswith("deriv"):
            des, dt = 4, K(1)
        elif kind == "scale":
            dW, dH = app(c.ctx, "int", W * V("scale_f")), app(c.ctx, "int", H * V("scale_f"))
        if kind.startswith("downsample"):
            ex += [(half(W) - 2, NN), (half(H) - 2, NN)]
        if kind == "scale":
            ex += [(dW - 1, NN), (dH - 1, NN)]

        def pix(y, x, cs, st):
            A = src(c, st, "src", es, ty)
            sg = lambda e: c.p.sign_under(cs, e)
            if kind == "downsample":
                return A(y * 2, x * 2)
            if kind == "upsample":
                # even/odd position decides the neighbours that are averaged; the last row/column is repeated
                def half_of(v, n):
                    for par in (0, 1):
                        q = (v - par) / K(2)
                        if all(cc.denominator == 1 for cc in q.n.t.values()):
                            return par, q
                    raise Gap("position %s is neither even nor odd" % v.show())
                py, yy = half_of(y, H)
                px, xx = half_of(x, W)
                ys, xs = [yy], [xx]
                if py:
                    s = sg(H - 1 - yy)
                    if s == POS:
                        ys.append(yy + 1)
                    elif s & POS:
                        raise Gap("row %s: border not distinguished" % y.show())
                if px:
                    s = sg(W - 1 - xx)
                    if s == POS:
                        xs.append(xx + 1)
                    elif s & POS:
                        raise Gap("column %s: border not distinguished" % x.show())
                tot = K(0)
                for a in ys:
                    for b in xs:
                        tot = tot + A(a, b)
                n = len(ys) * len(xs)
                if t == "uc":
                    return [app(c.ctx, "idiv", tot, K(n)), app(c.ctx, "floordiv", tot, K(n))] if n > 1 else [tot]
                return tot / K(n)
            if kind.startswith("downsample_aa"):
                ax = kind.endswith("x")
                q, N, M = (x, W, dW) if ax else (y, H, dH)
                at = (lambda v: A(y, v)) if ax else (lambda v: A(v, x))
                left = sg(q)
                if left == ZERO:
                    ctr, lm, l1 = K(0), K(2), K(1)         # mirrored
                elif left == POS:
                    ctr, lm, l1 = q * 2, q * 2 - 2, q * 2 - 1
                else:
                    raise Gap("position %s: border not distinguished" % q.show())
                # right neighbour at 2q+2 exists unless this is the last sample of an even-length line
                rgt = sg(M - 1 - q)
                if rgt == POS:
                    rv = at(ctr + 2)
                else:
                    ev = sg(M * 2 - N)
                    if ev == ZERO:
                        rv = at(ctr)                        # repeated centre, as the line ends
                    elif not ev & ZERO:
                        rv = at(ctr + 2)
                    else:
                        raise Gap("position %s: line end not distinguished" % q.show())
                return wrap((at(lm) + rv + (at(l1) + at(ctr + 1)) * 6 + at(ctr) * 11) / K(25))
            if kind in ("deriv_x", "deriv_y"):
                ax = kind.endswith("x")
                q, N = (x, W) if ax else (y, H)
                at = (lambda v: A(y, v)) if ax else (lambda v: A(v, x))
                sc = K(255) if t == "uc" else K(1)
                if sg(q) == ZERO:
                    return (at(K(1)) - at(K(0))) * 2 / sc
                if sg(N - 1 - q) == ZERO:
                    return (at(N - 1) - at(N - 2)) * 2 / sc
                if sg(q) == POS and sg(N - 1 - q) == POS:
                    return (at(q + 1) - at(q - 1)) / sc
                raise Gap("position %s: border not distinguished" % q.show())
            if kind == "scale":
                f = V("scale_f")
                xp, yp = x / f, y / f
                xi, yi = app(c.ctx, "int", xp), app(c.ctx, "int", yp)
                dx, dy = xp - xi, yp - yi
                sx, sy = sg(W - 1 - xi), sg(H - 1 - yi)
                if (sx & POS and sx & ~POS) or (sy & POS and sy & ~POS):
                    raise Gap("neighbours are read without testing that they exist (column %s)" % x.show())
                x1 = xi + 1 if sx == POS else xi
                y1 = yi + 1 if sy == POS else yi
                one = K(1)
                val = (A(yi, xi) * (one - dx) + A(yi, x1) * dx) * (one - dy) + (A(y1, xi) * (one - dx) + A(y1, x1) * dx) * dy
                if t == "f32":
                    return val
                iv = app(c.ctx, "int", val)
                if sg(iv) == NEG:
                    return K(0)
                if sg(iv - 255) == POS:
                    return [K(255), K(-1)]
                return iv
        lab = n + ("" if not extra0 else " (%s)" % t)
        resized(lab, c, "dest", dW, dH, V("src.type"), dt, ex)
        judge(n, c, "pix(dest)", des, "stride(dest)", dH, dW, pix, ex, lab)

    for n in OPS:
        kind, t = n[len("nx_image_"):].rsplit("_", 1)
        ops(n, kind, t)
    for d in DISPATCH:
        for t, dt in (("uc", 0), ("f32", 1)):
            c0 = case("nx_image_" + d)
            if c0 is not None:
                ops("nx_image_" + d, d, t, extra0=[(c0.V("src.dtype") - dt, ZERO)])

    # ---- in-place linear map
    def axpy(n, t, extra=None):
        c = case(n)
        if c is None:
            return
        V, K = c.V, c.K
        ty, es = ("i8", 1) if t == "uc" else ("float", 4)
        for nch, tv in ((1, 0), (4, 1)):
            ex = [(V("img.width") - 1, NN), (V("img.height") - 1, NN), (V("img.type") - tv, ZERO)]
            if extra is not None:
                ex.append((V("img.dtype") - extra, ZERO))

            def pix(y, x, cs, st):
                old = c.p._load(st, None, "*img.data", (V("img.row_stride") * y + x) * es, es, ty)
                e = old * V("a") + V("y")
                if t == "f32":
                    return e
                iv = app(c.ctx, "int", e)
                s0, s1 = c.p.sign_under(cs, iv), c.p.sign_under(cs, iv - 255)
                if s0 == NEG:
                    return K(0)
                if s1 == POS:
                    return [K(255), K(-1)]
                if s0 & NEG or s1 & POS:
                    raise Gap("value stored without clamping to 0..255")
                return iv
            judge(n, c, "*img.data", es, "img.row_stride", V("img.height"), V("img.width") * nch, pix, ex, "%s (%s, %d channels)" % (n, t, nch))
    axpy("nx_image_axpy_uc", "uc")
    axpy("nx_image_axpy_f32", "f32")
    axpy("nx_image_axpy", "uc", 0)
    axpy("nx_image_axpy", "f32", 1)

    # ---- difference
    c = case("nx_image_subtract")
    if c is not None:
        V, K = c.V, c.K
        for t, dt in (("uc", 0), ("f32", 1)):
            ty, es = ("i8", 1) if t == "uc" else ("float", 4)
            for wi in "01":
                for hi in "01":
                    o = {"0": "1", "1": "0"}
                    ex = [(V("img0.dtype") - dt, ZERO), (V("img%s.width" % o[wi]) - V("img%s.width" % wi), NN), (V("img%s.height" % o[hi]) - V("img%s.height" % hi), NN)]
                    W, H = V("img%s.width" % wi), V("img%s.height" % hi)
                    ex += [(V("img%s.%s" % (q, d)) - 1, NN) for q in "01" for d in ("width", "height")]

                    def pix(y, x, cs, st):
                        return src(c, st, "img0", es, ty)(y, x) - src(c, st, "img1", es, ty)(y, x)
                    # equal sizes: either image's size is the minimum
                    try:
                        im = Img(c, "pix(difference)", 4, "stride(difference)", ex)
                        ok = True
                        for st in c.parts:
                            cs = im.cons(st)
                            if cs is None:
                                continue
                            ev = [e for e in st.events if e[0] == "resize"]
                            ok = ok and bool(ev) and im.zero(cs, ev[-1][2][0] - W) and im.zero(cs, ev[-1][2][1] - H) and ev[-1][2][3].same(0) and ev[-1][2][4].same(1)
                        lab = "nx_image_subtract (%s, width of image %s, height of image %s)" % (t, wi, hi)
                        rep.check(ok, "result has the defined size and type", lab, c.fn.where(), "the result is not sized to the smaller of both images")
                    except Gap as g:
                        rep.violate("every result pixel written", "nx_image_subtract", c.fn.where(), str(g))
                    judge("nx_image_subtract", c, "pix(difference)", 4, "stride(difference)", H, W, pix, ex, lab)

    # ---- data type conversion
    c = case("nx_image_convert_dtype")
    if c is not None:
        V, K = c.V, c.K
        W, H = V("src.width"), V("src.height")
        same = [st for st in c.parts if c.p.sign_under(st.cons, V("src.dtype") - V("dest.dtype")) == ZERO]
        for st in same:
            rep.check([e for e in st.events if e[0] == "copy" and e[1:] == ("dest", "src")] != [], "pixel formula", "nx_image_convert_dtype: equal types copy", c.fn.where(),
                      "the image is not copied when both data types are equal")
        rep.check(bool(same), "pixel formula", "nx_image_convert_dtype: equal types are handled", c.fn.where(), "no path handles equal data types")
        for t, dt in (("uc", 0), ("f32", 1)):
            ty, es = ("i8", 1) if t == "uc" else ("float", 4)
            ex = [(W - 1, NN), (H - 1, NN), (V("src.dtype") - dt, ZERO), (V("src.dtype") - V("dest.dtype"), POS | NEG)]

            def pix(y, x, cs, st):
                a = src(c, st, "src", es, ty)(y, x)
                if t == "uc":
                    return a / K(255)
                iv = app(c.ctx, "int", a * 255)
                s0, s1 = c.p.sign_under(cs, iv), c.p.sign_under(cs, iv - 255)
                if not s0 & POS:
                    return [K(0)] + ([iv] if s0 == ZERO else [])
                if not s1 & NEG:
                    return [K(255), K(-1)] + ([iv] if s1 == ZERO else [])
                if s0 & NEG or s1 & POS:
                    raise Gap("value stored without clamping to 0..255")
                return iv
            lab = "nx_image_convert_dtype (from %s)" % t
            resized(lab, c, "dest", W, H, V("src.type"), K(1 - dt), ex)
            judge("nx_image_convert_dtype", c, "pix(dest)", 4 if t == "uc" else 1, "stride(dest)", H, W, pix, ex, lab)

    # ---- colour mapping of a gray image
    c = case("nx_image_apply_colormap")
    if c is not None:
        V, K = c.V, c.K
        W, H = V("gray.width"), V("gray.height")
        for t, dt in (("uc", 0), ("f32", 1)):
            ty, es = ("i8", 1) if t == "uc" else ("float", 4)
            ex = [(W - 1, NN), (H - 1, NN), (V("gray.dtype") - dt, ZERO)]

            def pix(y, x, cs, st):
                for ch in range(4):
                    q = (x - ch) / K(4)
                    if all(cc.denominator == 1 for cc in q.n.t.values()):
                        if ch == 3:
                            return [K(255), K(-1)]
                        a = src(c, st, "gray", es, ty)(y, q)
                        return app(c.ctx, "cmap_" + "rgb"[ch], a / K(255) if t == "uc" else a, V("map"))
                raise Gap("byte position %s" % x.show())
            lab = "nx_image_apply_colormap (%s)" % t
            resized(lab, c, "color", W, H, K(1), K(0), ex)
            judge("nx_image_apply_colormap", c, "pix(color)", 1, "stride(color)", H, W * 4, pix, ex, lab)

    normalise(rep, kernels, nk)
    sized(rep, m, h, nk)
    bookkeeping(rep, nk)
    rep.analysed = {"kernels": nk[0]}
    rep.need("every result pixel written", 20)
    rep.need("pixel formula", 60)


def normalise(rep, kernels, nk):
    """value range scan: minimum and maximum over all samples, and the linear map that is then applied"""
    n = "nx_image_normalize_to_zero_one"

    def axpy(p, i, st, a):
        st.events.append(("axpy", a[0].base, a[1], a[2]))
        st.mem["*img.data"] = Entry("havoc", None, None, "mapped", None)
    m = kernels([(n, n, None)], opaque=["nx_image_axpy"], name="p05n")
    try:
        c = Case(m, n, opaque={"nx_image_axpy": axpy},
                 pre=lambda p: [(p.V("img.type"), ZERO), (p.V("img.width") - 1, NN), (p.V("img.height") - 1, NN)])
    except (Unsupported, ZeroDivisionError) as e:
        rep.undecide(n, e)
        return
    nk[0] += 1
    where = c.fn.where()
    K, V = c.K, c.V
    # the innermost scan: carried values become min/max with the one sample visited
    ext = {}
    for r in c.p.iters:
        body = c.p.loops()[r["head"].id]
        if any(x["head"].id in body and x["head"].id != r["head"].id for x in c.p.iters):
            continue        # not innermost
        kn = next(iter(r["k"].vars()))
        accs = [pid for pid in r["phis"] if r["steps"][pid] is None and isinstance(r["at"][pid], R)]
        for pid in accs:
            kinds = {"min", "max"}
            samples = set()
            for s, lv in zip(r["latch"], r["latch_vals"]):
                mine = [v for e, mm in s.cons for v in e.vars() if v.startswith("*img.data[") and mentions(V(v), kn) or v.startswith("*img.data[") and kn + "]" in v]
                samples |= set(mine)
                if not mine or not isinstance(lv[pid], R):
                    kinds = set()
                    break
                kinds &= classify(c, s, r["at"][pid], lv[pid], [V(x) for x in set(mine)])
            if samples:
                ext.setdefault(id(r), []).append(kinds)
                rep.check(bool(kinds), "range scan", n + ": carried value is the running minimum or maximum of every sample", where,
                          "a carried value of the scan at %s is not updated as a minimum or maximum on every path" % r["where"])
    got = [sorted(x for k in v for x in k) for v in ext.values()]
    rep.check(any("min" in g for g in got) and any("max" in g for g in got), "range scan", n + ": both extremes are found", where, "scans found: %s" % got)


def put_img(p, st, base, w, h, stride, ty, dt):
    for f, v in (("width", w), ("height", h), ("type", ty), ("dtype", dt), ("n_channels", 4 if ty else 1), ("row_stride", stride)):
        set_field(p, st, base, "NXImage", f, v if isinstance(v, R) else p.K(v))
    set_field(p, st, base, "NXImage", "data", Ptr("pix(%s)" % base, p.K(0)))


def sized(rep, m, h0, nk):
    """complete results for small concrete sizes with symbolic pixels (constants where results are clamped): every pixel of
    the result, nothing outside its rows, row strides of source and result all different"""
    from vlib.poly import Ctx
    DS = 3      # result stride exceeds the row length by this much

    def resz(p, i, st, a):
        if not (a[1].is_const() and a[2].is_const()):
            raise Unsupported("result size %s x %s" % (a[1].show(), a[2].show()))
        st.events.append(("resize", a[0].base, tuple(a[1:6])))
        nc = 4 if a[4].is_const() and a[4].cval() == 1 else 1
        put_img(p, st, a[0].base, a[1], a[2], a[1] * nc + DS, a[4], a[5])

    def like(p, i, st, a):
        g = lambda f: get_field(p, st, a[1].base, "NXImage", f)
        return resz(p, i, st, [a[0], g("width"), g("height"), p.K(0), g("type"), g("dtype")])
    H = dict(h0)
    H.update({"nx_image_resize": resz, "nx_image_resize_like": like})

    def go(n, inst, init, argv, dest, dW, dH, nch, des, dty, dtype, tyv, orc, want_resize=True):
        heads = {}

        def init2(p, st):
            init(p, st)
            heads.update(st.mem)
        try:
            ctx = Ctx()
            c = Case(m, n, ctx=ctx, unroll=True, distinct=True, opaque=H, init=init2, argvals={k: R.const(ctx, v) for k, v in argv.items()})
        except (Unsupported, ZeroDivisionError) as e:
            rep.undecide(inst, e)
            return
        nk[0] += 1
        for st in c.parts:
            if want_resize:
                e = [x for x in st.events if x[0] == "resize" and x[1] == dest]
                ok = bool(e) and all(x.same(c.K(y)) for x, y in zip([e[-1][2][k] for k in (0, 1, 3, 4)], (dW, dH, tyv, dtype)))
                if not rep.check(ok, "result has the defined size and type", inst, c.fn.where(), "resized to %s, expected %s" % ([[v.show() for v in x[2]] for x in e], (dW, dH, tyv, dtype))):
                    continue
            base = "pix(%s)" % dest
            ds = dW * nch + DS
            bad = None
            inside = set()
            for y in range(dH):
                for x in range(dW * nch):
                    inside.add((ds * y + x) * des)
                    got = c.outat(st, base, (ds * y + x) * des, des, dty)
                    exp = orc(c, y, x)
                    if exp is None:
                        continue
                    exp = exp if isinstance(exp, list) else [exp]
                    good = isinstance(got, R) and any(got.same(e) or (got.is_const() and e.is_const() and ((dty == "i8" and (got.cval() - e.cval()) % 256 == 0) or (dty == "float" and abs(got.cval() - e.cval()) < Fraction(1, 10 ** 5)))) for e in exp)
                    if not good and isinstance(got, R) and not got.is_const() and any(differ(c.ctx, got, e, st.cons) is False for e in exp):
                        rep.undecide(inst, "another form of the definition: %s" % got.show()[:100])
                        good = True
                    if not good:
                        bad = bad or "row %d, column %d is %s, the definition is %s" % (y, x, got.show()[:200] if isinstance(got, R) else got, exp[0].show()[:200])
            rep.check(bad is None, "pixel formula", inst, c.fn.where(), bad or "")
            out = []
            for b in st.mem:
                if b.startswith("pix("):
                    for e in chain(st, b, heads.get(b)):
                        w = (int(e.off.cval()), int(e.size)) if e.off is not None and e.off.is_const() else ("sym", 0)
                        if b != base or w[0] == "sym" or not set(range(w[0], w[0] + w[1], des)) <= inside:
                            out.append((b, w))
            rep.check(not out, "writes stay in the result rectangle", inst, c.fn.where(), "stores at %s" % out[:4])

    def pxl(c, base, es, ty, stride):
        return lambda y, x: c.p._load(c.p.st0 if hasattr(c.p, "st0") else c.parts[0], None, "pix(%s)" % base, c.K((stride * y + x) * es), es, ty)

    SZ = [(4, 5), (5, 4), (7, 6), (6, 7)]
    for t, dt in (("uc", 0), ("f32", 1)):
        ty, es = ("i8", 1) if t == "uc" else ("float", 4)
        for kind in DISPATCH:
            for (W, Hh) in SZ[:4 if kind != "scale" else 2]:
                if rep.tier == "quick" and kind != "scale" and (W, Hh) in SZ[2:]:
                    if not kind.startswith("downsample"):
                        continue
                for f in ((Fraction(1, 2), Fraction(3, 2), Fraction(2, 3)) if kind == "scale" else (None,)):
                    SS = W + 5
                    const = kind == "scale" and t == "uc"
                    val = lambda y, x: (37 * y + 11 * x * x + 5 * x * y) % 256

                    def init(p, st):
                        put_img(p, st, "src", W, Hh, SS, 0, dt)
                        set_field(p, st, "dest", "NXImage", "data", Ptr("old(dest)", p.K(0)))
                        if const:
                            for y in range(Hh):
                                for x in range(W):
                                    st.mem["pix(src)"] = Entry("store", p.K((SS * y + x) * es), es, p.K(val(y, x)), st.mem.get("pix(src)"))
                    dW, dH, ddt, des, dty = W, Hh, dt, es, ty
                    if kind == "downsample":
                        dW, dH = W // 2, Hh // 2
                    elif kind == "upsample":
                        dW, dH = 2 * W, 2 * Hh
                    elif kind == "downsample_aa_x":
                        dW = W // 2
                    elif kind == "downsample_aa_y":
                        dH = Hh // 2
                    elif kind.startswith("deriv"):
                        ddt, des, dty = 1, 4, "float"
                    elif kind == "scale":
                        dW, dH = int(W * f), int(Hh * f)

                    def orc(c, y, x):
                        A = (lambda yy, xx: c.K(val(yy, xx))) if const else pxl(c, "src", es, ty, SS)
                        I = (lambda e: app(c.ctx, "int", e)) if t == "uc" else (lambda e: e)
                        if kind == "downsample":
                            return A(2 * y, 2 * x)
                        if kind == "upsample":
                            ys = [y // 2] + ([y // 2 + 1] if y % 2 and y // 2 + 1 < Hh else [])
                            xs = [x // 2] + ([x // 2 + 1] if x % 2 and x // 2 + 1 < W else [])
                            tot = c.K(0)
                            for a in ys:
                                for b in xs:
                                    tot = tot + A(a, b)
                            k = len(ys) * len(xs)
                            if k == 1 or t != "uc":
                                return tot / c.K(k)
                            return [app(c.ctx, "idiv", tot, c.K(k)), app(c.ctx, "floordiv", tot, c.K(k))]
                        if kind.startswith("downsample_aa"):
                            ax = kind.endswith("x")
                            q, N = (x, W) if ax else (y, Hh)
                            at = (lambda v: A(y, v)) if ax else (lambda v: A(v, x))
                            l2, l1 = (2, 1) if q == 0 else (2 * q - 2, 2 * q - 1)
                            r2 = 2 * q + 2 if 2 * q + 2 < N else 2 * q
                            return I((at(l2) + at(r2) + (at(l1) + at(2 * q + 1)) * 6 + at(2 * q) * 11) / c.K(25))
                        if kind.startswith("deriv"):
                            ax = kind.endswith("x")
                            q, N = (x, W) if ax else (y, Hh)
                            at = (lambda v: A(y, v)) if ax else (lambda v: A(v, x))
                            sc = c.K(255 if t == "uc" else 1)
                            if q == 0:
                                return (at(1) - at(0)) * 2 / sc
                            if q == N - 1:
                                return (at(N - 1) - at(N - 2)) * 2 / sc
                            return (at(q + 1) - at(q - 1)) / sc
                        xp, yp = x / f, y / f
                        xi, yi = int(xp), int(yp)
                        dx, dy = c.K(xp - xi), c.K(yp - yi)
                        x1, y1 = min(xi + 1, W - 1), min(yi + 1, Hh - 1)
                        one = c.K(1)
                        v = (A(yi, xi) * (one - dx) + A(yi, x1) * dx) * (one - dy) + (A(y1, xi) * (one - dx) + A(y1, x1) * dx) * dy
                        if t == "uc":
                            # the last binary digit of an interpolation weight may decide an exact integer either way
                            iv = int(v.cval())
                            return [c.K(iv)] + ([c.K(iv - 1)] if v.cval() == iv else [])
                        return v
                    for n in ("nx_image_%s_%s" % (kind, t), "nx_image_" + kind):
                        if n.endswith(kind) and (W, Hh) != SZ[0]:
                            continue
                        go(n, "%s, %s %dx%d%s" % (n, t, W, Hh, " by %s" % f if f else ""), init, {2: f} if f else {}, "dest", dW, dH, 1, des, dty, ddt, 0, orc)
        # in-place linear map
        for nch, tv in ((1, 0), (4, 1)):
            W, Hh = (3, 2) if nch == 1 else (2, 2)
            a, b = Fraction(5, 2), Fraction(-31)
            val = lambda y, x: (53 * y + 29 * x + 3) % 256

            def init(p, st):
                put_img(p, st, "img", W, Hh, W * nch + DS, tv, dt)
                if t == "uc":
                    for y in range(Hh):
                        for x in range(W * nch):
                            st.mem["pix(img)"] = Entry("store", p.K(((W * nch + DS) * y + x) * es), es, p.K(val(y, x)), st.mem.get("pix(img)"))

            def orc(c, y, x):
                if t == "uc":
                    return c.K(max(0, min(255, int(a * val(y, x) + b))))
                return pxl(c, "img", es, ty, W * nch + DS)(y, x) * c.K(a) + c.K(b)
            for n in ("nx_image_axpy_" + t, "nx_image_axpy"):
                go(n, "%s, %s %dx%d, %d channels" % (n, t, W, Hh, nch), init, {1: a, 2: b}, "img", W, Hh, nch, es, ty, dt, tv, orc, want_resize=False)
        # difference
        for (w0, h0_), (w1, h1) in (((3, 4), (4, 2)), ((4, 2), (3, 4))):
            def init(p, st):
                put_img(p, st, "img0", w0, h0_, w0 + 2, 0, dt)
                put_img(p, st, "img1", w1, h1, w1 + 4, 0, dt)
                set_field(p, st, "difference", "NXImage", "data", Ptr("old", p.K(0)))

            def orc(c, y, x):
                return pxl(c, "img0", es, ty, w0 + 2)(y, x) - pxl(c, "img1", es, ty, w1 + 4)(y, x)
            n = "nx_image_subtract"
            go(n, "%s, %s %dx%d - %dx%d" % (n, t, w0, h0_, w1, h1), init, {}, "difference", min(w0, w1), min(h0_, h1), 1, 4, "float", 1, 0, orc)
        # data type conversion
        W, Hh = 3, 2
        val = lambda y, x: Fraction((y * 3 + x) * 3 - 4, 8)

        def init(p, st):
            put_img(p, st, "src", W, Hh, W + 2, 0, dt)
            put_img(p, st, "dest", 1, 1, 1, 0, 1 - dt)
            if t == "f32":
                for y in range(Hh):
                    for x in range(W):
                        st.mem["pix(src)"] = Entry("store", p.K(((W + 2) * y + x) * es), es, p.K(val(y, x)), st.mem.get("pix(src)"))

        def orc(c, y, x):
            if t == "uc":
                return pxl(c, "src", es, ty, W + 2)(y, x) / c.K(255)
            return c.K(max(0, min(255, int(val(y, x) * 255))))
        n = "nx_image_convert_dtype"
        go(n, "%s, from %s" % (n, t), init, {}, "dest", W, Hh, 1, 4 if t == "uc" else 1, "float" if t == "uc" else "i8", 1 - dt, 0, orc)

        # colour map
        def init(p, st):
            put_img(p, st, "gray", W, Hh, W + 2, 0, dt)
            set_field(p, st, "color", "NXImage", "data", Ptr("old", p.K(0)))

        def orc(c, y, x):
            if x % 4 == 3:
                return [c.K(255), c.K(-1)]
            a = pxl(c, "gray", es, ty, W + 2)(y, x // 4)
            return app(c.ctx, "cmap_" + "rgb"[x % 4], a / c.K(255) if t == "uc" else a, c.V("map"))
        n = "nx_image_apply_colormap"
        go(n, "%s, %s" % (n, t), init, {}, "color", W, Hh, 4, 1, "i8", 0, 1, orc)

    # ---- range normalisation: extremes from every position, then the clamp over every sample
    n = "nx_image_normalize_to_zero_one"
    for nch, tv, W, Hh in ((1, 0, 3, 2), (4, 1, 2, 2)):
        S = W * nch + DS
        N = W * nch * Hh
        cells = [(S * y + x) * 4 for y in range(Hh) for x in range(W * nch)]
        for sym in (0, 1):
            for k in range(N) if (nch == 1 or rep.tier != "quick") else range(0, N, 3):
                lo, hi = k, (k * 5 + 3) % N
                if lo == hi:
                    hi = (hi + 1) % N
                vals = [Fraction(q % 7, 4) for q in range(N)]
                vals[lo], vals[hi] = Fraction(-9 - k, 4), Fraction(30 - k, 8)
                mapped = [Fraction((q + k) % 5 - 1, 2) for q in range(N)]
                inst = "%s, %d channels, %s, extremes at samples %d and %d" % (n, nch, "symmetric" if sym else "full range", lo, hi)

                def init(p, st):
                    put_img(p, st, "img", W, Hh, S, tv, 1)
                    # padding holds larger values than any pixel
                    for y in range(Hh):
                        for x in range(S):
                            inn = x < W * nch
                            v = vals[y * W * nch + x] if inn else Fraction(10 ** 4 * (-1) ** x)
                            st.mem["pix(img)"] = Entry("store", p.K((S * y + x) * 4), 4, p.K(v), st.mem.get("pix(img)"))

                def axpy(p, i, st, a):
                    st.events.append(("axpy", a[0].base, a[1], a[2]))
                    for o, v in zip(cells, mapped):
                        st.mem["pix(img)"] = Entry("store", p.K(o), 4, p.K(v), st.mem.get("pix(img)"))
                try:
                    ctx = Ctx()
                    mm = _norm_mod()
                    c = Case(mm, n, ctx=ctx, unroll=True, distinct=True, opaque={"nx_image_axpy": axpy}, init=init, argvals={1: R.const(ctx, sym)})
                except (Unsupported, ZeroDivisionError) as e:
                    rep.undecide(inst, e)
                    continue
                for st in c.parts:
                    ev = [e for e in st.events if e[0] == "axpy"]
                    mn, mx = min(vals), max(vals)
                    if sym:
                        a, b = 1 / (2 * max(abs(mn), abs(mx))), Fraction(1, 2)
                    else:
                        a, b = 1 / (mx - mn), -mn / (mx - mn)
                    close = lambda g, e: isinstance(g, R) and g.is_const() and abs(g.cval() - e) < Fraction(1, 10 ** 5)
                    if len(ev) != 1:
                        rep.undecide(inst, "the linear map is not applied by one nx_image_axpy call")
                        continue
                    rep.check(close(ev[0][2], a) and close(ev[0][3], b), "range scan", inst, c.fn.where(), "maps by v*%s + %s, the definition is v*%s + %s" % (ev[0][2], ev[0][3], a, b))
                    bad = [(o // 4, v.show() if isinstance(v, R) else v) for o, w in zip(cells, mapped) for v in [c.outat(st, "pix(img)", o, 4, "float")] if not close(v, max(Fraction(0), min(Fraction(1), w)))]
                    rep.check(not bad, "range scan", inst + ": result clamped to 0..1", c.fn.where(), "samples %s" % bad[:4])


_nm = []


def _norm_mod():
    if not _nm:
        n = "nx_image_normalize_to_zero_one"
        _nm.append(kernels([(n, n, None)], opaque=["nx_image_axpy"], name="p05n"))
    return _nm[0]


def classify(c, s, a, nv, samples):
    """which running extrema nv is of (a, samples) on this path"""
    out = set()
    sg = lambda e: c.p.sign_under(s.cons, e)
    cand = [a] + samples
    if not any(nv.same(x) for x in cand):
        return out
    if all(nv.same(x) or not sg(nv - x) & POS for x in cand):
        out.add("min")
    if all(nv.same(x) or not sg(nv - x) & NEG for x in cand):
        out.add("max")
    return out


def bookkeeping(rep, nk):
    ops = ["nx_mem_block_resize", "nx_mem_block_copy", "nx_mem_block_wrap", "nx_mem_block_swap", "nx_mem_block_release", "nx_mem_block_alloc"]

    def newptr(p, st, m, tag):
        off, size = field_off(p, "NXMemBlock", "ptr")
        st.mem[m.base] = Entry("store", m.off + off, size, Ptr("block(%s,%s)" % (m.base, tag), p.K(0)), st.mem.get(m.base))
    H = {}
    for o in ops:
        def h(p, i, st, a, o=o):
            st.events.append((o, [x for x in a]))
            if o in ("nx_mem_block_resize", "nx_mem_block_copy", "nx_mem_block_wrap"):
                newptr(p, st, a[0], o)
                return Ptr("block(%s,%s)" % (a[0].base, o), p.K(0))
            if o == "nx_mem_block_swap":
                newptr(p, st, a[0], "from " + a[1].base)
                newptr(p, st, a[1], "from " + a[0].base)
            if o == "nx_mem_block_alloc":
                return Ptr("heapblk", p.K(0))
            return None
        H[o] = h
    H["nx_xmalloc"] = H["nx_malloc"] = lambda p, i, st, a: Ptr("heapimg", p.K(0))
    m = kernels([(n, n, None) for n in BOOK], opaque=list(H), name="p05b")

    def K(n):
        try:
            c = Case(m, n, opaque=H)
            nk[0] += 1
            return c
        except (Unsupported, ZeroDivisionError) as e:
            rep.undecide(n, e)

    def fields(c, st, base):
        g = lambda f, ty="i32": get_field(c.p, st, base, "NXImage", f, ty)
        d = {f: g(f) for f in ("width", "height", "type", "dtype", "n_channels", "row_stride")}
        d["data"] = g("data", "ptr")
        return d

    def expect(n, c, st, base, exp):
        got = fields(c, st, base)
        for f, e in exp.items():
            v = got[f]
            if isinstance(e, str):
                good = isinstance(v, Ptr) and v.base == e and v.off.same(0)
            else:
                good = isinstance(v, R) and (v.same(e) or c.p.sign_under(st.cons, v - e) == ZERO)
            rep.check(good, "image description kept consistent", "%s: %s.%s" % (n, base, f), c.fn.where(),
                      "%s is %s, must be %s (when %s)" % (f, v.show() if isinstance(v, R) else v, e if isinstance(e, str) else e.show(), guard_text(st)[:200]))

    def nch(c, st, ty):
        for v, k in ((0, 1), (1, 4)):
            if c.p.sign_under(st.cons, ty - v) == ZERO:
                return c.K(k)
        return None

    c = K("nx_image_resize")
    if c:
        V = c.V
        chg = 0
        for st in c.parts:
            args = {f: V(f) for f in ("width", "height", "type", "dtype")}
            if not any(e[0] == "nx_mem_block_resize" for e in st.events):
                # nothing to do: only when size, layout and type already agree
                good = all(c.p.sign_under(st.cons, V("img." + f) - V(f)) == ZERO for f in ("width", "height", "type", "dtype", "row_stride"))
                rep.check(good and not c.written(st, "img"), "image description kept consistent", "nx_image_resize: early return", c.fn.where(), "returns without resizing when %s" % guard_text(st)[:200])
                continue
            chg += 1
            nc = nch(c, st, V("type"))
            if nc is None:
                rep.violate("image description kept consistent", "nx_image_resize: channel count", c.fn.where(), "type is not distinguished")
                continue
            rs = nc * V("width")
            sg = c.p.sign_under(st.cons, V("row_stride") - rs)
            stride = rs if not sg & POS else V("row_stride") if not sg & NEG else None
            if stride is None:
                rep.violate("image description kept consistent", "nx_image_resize: row stride", c.fn.where(), "row stride not compared with the row length")
                continue
            expect("nx_image_resize", c, st, "img", dict(args, n_channels=nc, row_stride=stride, data="block(*img.mem,nx_mem_block_resize)"))
            ev = [e for e in st.events if e[0] == "nx_mem_block_resize"][0][1]
            b = next((k for v, k in ((0, 1), (1, 4)) if c.p.sign_under(st.cons, V("dtype") - v) == ZERO), None)
            rep.check(b is not None and ev[0].base == "*img.mem" and ev[1].same(stride * V("height") * (b or 1)), "image description kept consistent", "nx_image_resize: buffer holds all rows", c.fn.where(),
                      "buffer of %s bytes" % ev[1].show())
        rep.check(chg > 0, "image description kept consistent", "nx_image_resize: resizing path", c.fn.where(), "no path resizes")
    c = K("nx_image_resize_like")
    c = K("nx_image_copy")
    if c:
        for st in c.parts:
            e = {f: c.V("src." + f) for f in ("width", "height", "type", "dtype", "n_channels", "row_stride")}
            e["data"] = "block(*dest.mem,nx_mem_block_copy)"
            expect("nx_image_copy", c, st, "dest", e)
            ev = [x for x in st.events if x[0] == "nx_mem_block_copy"]
            rep.check(len(ev) == 1 and ev[0][1][0].base == "*dest.mem" and ev[0][1][1].base == "*src.mem", "image description kept consistent", "nx_image_copy: pixels copied", c.fn.where(), "%s" % ev)
            rep.check(not c.written(st, "src"), "image description kept consistent", "nx_image_copy: source untouched", c.fn.where(), "the source is modified")
    c = K("nx_image_wrap")
    if c:
        for st in c.parts:
            nc = nch(c, st, c.V("type"))
            e = {f: c.V(f) for f in ("width", "height", "type", "dtype", "row_stride")}
            e["data"] = "block(*img.mem,nx_mem_block_wrap)"
            if nc is not None:
                e["n_channels"] = nc
            expect("nx_image_wrap", c, st, "img", e)
            ev = [x for x in st.events if x[0] == "nx_mem_block_wrap"][0][1]
            b = next((k for v, k in ((0, 1), (1, 4)) if c.p.sign_under(st.cons, c.V("dtype") - v) == ZERO), None)
            sz = c.V("row_stride") * c.V("height") * (b or 1)
            rep.check(b is not None and ev[0].base == "*img.mem" and isinstance(ev[1], Ptr) and ev[1].base == "data" and ev[2].same(sz) and ev[3].same(sz) and isinstance(ev[4], R) and ev[4].same(c.V("own_memory")),
                      "image description kept consistent", "nx_image_wrap: wraps the caller's whole buffer", c.fn.where(), "wrap arguments %s" % ev)
    c = K("nx_image_swap")
    if c:
        for st in c.parts:
            for a, b in (("img0", "img1"), ("img1", "img0")):
                e = {f: c.V(b + "." + f) for f in ("width", "height", "type", "dtype", "n_channels", "row_stride")}
                e["data"] = "block(*%s.mem,from *%s.mem)" % (a, b)
                expect("nx_image_swap", c, st, a, e)
    for n, base in (("nx_image_release", "img"), ("nx_image_alloc", "heapimg")):
        c = K(n)
        if c:
            for st in c.parts:
                z = c.K(0)
                expect(n, c, st, base, dict(width=z, height=z, type=z, dtype=z, n_channels=c.K(1), row_stride=z, data="null"))
