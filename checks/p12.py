"""Harris keypoints, image pyramids and BRIEF descriptors."""
from vlib.pix import *

LEVEL = "bounded"
NN = POS | ZERO


def num(st, what):
    return sum(1 for e in st.events if e[0] == what)


def ptr_at(p, st, base, off, ptr):
    st.mem[base] = Entry("store", p.K(off), 8, ptr, st.mem.get(base))


def img(p, st, base, w, h, stride=None, pix=None, dtype=0, ty=0):
    for f, v in (("width", w), ("height", h), ("type", ty), ("dtype", dtype), ("n_channels", 1)):
        set_field(p, st, base, "NXImage", f, v if isinstance(v, R) else p.K(v))
    s = stride if isinstance(stride, R) else p.V("stride(%s)" % base) if stride is None else p.K(stride)
    set_field(p, st, base, "NXImage", "row_stride", s)
    set_field(p, st, base, "NXImage", "data", Ptr(pix or "pix(%s)" % base, p.K(0)))


STR = {"heapnew0": 3, "heapnew1": 5, "heapnew2": 4, "heapd0": 4, "heapd1": 3, "heapd2": 6, "d0": 4, "d1": 3, "d2": 5, "simg": 6}


def sd(x, b):
    """row strides of the enumerated images: different ones, not below the width"""
    return x.K(STR[b]) if b in STR else x.V("stride(%s)" % b)


def resz_c(p, i, st, a):
    st.events.append(("resize", a[0].base, tuple(a[1:])))
    img(p, st, a[0].base, a[1], a[2], stride=sd(p, a[0].base), dtype=a[5], ty=a[4])


def px(c, st, base, stride, x, y, es, ty, mem=True):
    return c.p._load(st, st.mem.get(base) if mem else None, base, (stride * y + x) * es, es, ty)


def run(rep):
    harris(rep)
    pyramid(rep)
    brief(rep)
    distance(rep)
    rep.need("harris", 60)
    rep.need("pyramid", 60)
    rep.need("brief", 200)


def ev(name, ret=None):
    def h(p, i, st, a):
        st.events.append((name, a))
        return ret(p, st, a) if ret else None
    return h


def eq(rep, rule, inst, c, st, a, e):
    e = e if isinstance(e, (R, Ptr)) else c.K(e)
    if isinstance(e, Ptr):
        g = isinstance(a, Ptr) and a.base == e.base and a.off.same(e.off)
    else:
        g = isinstance(a, R) and a.same(e)
        if not g and isinstance(a, R) and differ(c.ctx, a, e, st.cons) is False:
            rep.undecide(inst, "another form: %s" % a.show()[:150])
            return True
    return rep.check(g, rule, inst, c.fn.where(), "%s, expected %s (when %s)" % (a.show()[:300] if isinstance(a, R) else a, e.show()[:300] if isinstance(e, R) else e, guard_text(st)[:200]))


def harris(rep):
    rule = "harris"
    F32 = 1
    OPQ = ["nx_image_alloc", "nx_image_deriv_x", "nx_image_deriv_y", "nx_image_resize_like", "nx_image_resize", "nx_image_filter_buffer_alloc", "nx_image_smooth", "nx_free"]
    m = kernels([(f, f, None) for f in ("nx_harris_deriv_images", "nx_harris_score_image", "nx_harris_detect_keypoints")], opaque=OPQ, name="p12h")
    # derivative images: squared x, squared y, product, then the same window smoothing for all three
    for have in (0, 1):
        for smooth in (0, 1):
            inst = "nx_harris_deriv_images(%s images%s)" % ("given" if have else "new", ", window" if smooth else "")

            def alloc(p, i, st, a):
                k = num(st, "alloc")
                st.events.append(("alloc", a))
                return Ptr("heapnew%d" % k, p.K(0))

            def deriv(nm):
                def h(p, i, st, a):
                    b = a[0].base
                    k = num(st, "dx") + num(st, "dy")
                    st.events.append((nm, a))
                    img(p, st, b, 3, 2, stride=sd(p, b), dtype=F32)
                    for y in range(2):
                        for x in range(3):
                            o = (sd(p, b) * y + x) * 4
                            st.mem["pix(%s)" % b] = Entry("store", o, 4, p.V("%s_%d_%d" % (nm, x, y)), st.mem.get("pix(%s)" % b))
                    return None
                return h

            def like(p, i, st, a):
                img(p, st, a[0].base, 3, 2, stride=sd(p, a[0].base), dtype=F32)
                st.events.append(("like", a))

            def smoo(p, i, st, a):
                b = a[0].base
                k = num(st, "smooth")
                vals = [[p._load(st, st.mem.get("pix(%s)" % b), "pix(%s)" % b, (sd(p, b) * y + x) * 4, 4, "float") for x in range(3)] for y in range(2)]
                st.events.append(("smooth", a, vals))
            H = {"nx_image_alloc": alloc, "nx_image_deriv_x": deriv("dx"), "nx_image_deriv_y": deriv("dy"), "nx_image_resize_like": like, "nx_image_resize": resz_c,
                 "nx_image_filter_buffer_alloc": ev("buf", lambda p, st, a: Ptr("fbuf", p.K(0))), "nx_image_smooth": smoo, "nx_free": ev("free")}

            def init(p, st):
                img(p, st, "img", 3, 2)
                for k in range(3):
                    ptr_at(p, st, "dimg", 8 * k, Ptr("heapd%d" % k if have else "null", p.K(0)))
            c0 = Ctx()
            try:
                c = Case(m, "nx_harris_deriv_images", unroll=True, distinct=True, init=init, ctx=c0, argvals=None if smooth else {2: R.const(c0, 0)}, opaque=H,
                         pre=(lambda p: [(p.V("sigma_win"), POS)]) if smooth else None)
                for st in c.parts:
                    D = [c.outat(st, "dimg", 8 * k, 8, "ptr") for k in range(3)]
                    if not rep.check(all(isinstance(d, Ptr) and d.base != "null" for d in D) and len({d.base for d in D}) == 3, rule, inst + " images", c.fn.where(), "images %s" % D):
                        continue
                    for k, (a, b) in enumerate((("dx", "dx"), ("dy", "dy"), ("dx", "dy"))):
                        s = sd(c, D[k].base)
                        for y in range(2):
                            for x in range(3):
                                eq(rep, rule, "%s image %d (%d,%d)" % (inst, k, x, y), c, st, px(c, st, "pix(%s)" % D[k].base, s, x, y, 4, "float"), c.V("%s_%d_%d" % (a, x, y)) * c.V("%s_%d_%d" % (b, x, y)))
                    sm = [e for e in st.events if e[0] == "smooth"]
                    if smooth:
                        ok = len(sm) == 3 and {e[1][0].base for e in sm} == {d.base for d in D} and all(e[1][1].base == e[1][0].base and e[1][2].same(c.V("sigma_win")) and e[1][3].same(c.V("sigma_win")) for e in sm)
                        rep.check(ok, rule, inst + " window", c.fn.where(), "smoothing calls %s" % [(e[1][0].base, str(e[1][2])) for e in sm])
                        # smoothing is of the finished products
                        for e in sm:
                            k = next((k for k in range(3) if D[k].base == e[1][0].base), 0)
                            a, b = (("dx", "dx"), ("dy", "dy"), ("dx", "dy"))[k]
                            eq(rep, rule, "%s smoothed product %d" % (inst, k), c, st, e[2][1][2], c.V("%s_2_1" % a) * c.V("%s_2_1" % b))
                    else:
                        rep.check(not sm, rule, inst + " no window", c.fn.where(), "smooths with sigma 0")
            except Unsupported as e:
                rep.undecide(inst, e)
    # response
    inst = "nx_harris_score_image"
    try:
        def init(p, st):
            for k in range(3):
                ptr_at(p, st, "dimg", 8 * k, Ptr("d%d" % k, p.K(0)))
                img(p, st, "d%d" % k, 3, 2, stride=sd(p, "d%d" % k), dtype=F32)
        c = Case(m, inst, unroll=True, distinct=True, init=init, opaque={"nx_image_resize": resz_c})
        for st in c.parts:
            r = [e for e in st.events if e[0] == "resize"]
            rep.check(len(r) == 1 and r[0][2][0].same(c.K(3)) and r[0][2][1].same(c.K(2)) and r[0][2][3].same(c.K(0)) and r[0][2][4].same(c.K(F32)), rule, inst + " size", c.fn.where(), "resize %s" % r)
            for y in range(2):
                for x in range(3):
                    a, b, d = (px(c, st, "pix(d%d)" % k, sd(c, "d%d" % k), x, y, 4, "float", False) for k in range(3))
                    eq(rep, rule, "%s (%d,%d)" % (inst, x, y), c, st, px(c, st, "pix(simg)", sd(c, "simg"), x, y, 4, "float"), a * b - d * d - c.V("k") * (a + b) * (a + b))
    except Unsupported as e:
        rep.undecide(inst, e)
    # local maxima
    fields = (("x", "i32"), ("y", "i32"), ("xs", "float"), ("ys", "float"), ("level", "i32"), ("scale", "float"), ("sigma", "float"), ("score", "float"), ("ori", "float"), ("id", "i64"))
    for w, h, cap in ((5, 5, 3), (6, 5, 3), (5, 6, 3), (6, 5, 1), (4, 5, 2), (5, 4, 2), (0, 0, 2), (5, 5, 0), (5, 5, -1)):
        inst = "nx_harris_detect_keypoints(%dx%d, capacity %d)" % (w, h, cap)
        c0 = Ctx()
        try:
            c = Case(m, "nx_harris_detect_keypoints", unroll=True, distinct=True, ctx=c0, argvals={0: R.const(c0, cap)}, init=lambda p, st: img(p, st, "simg", w, h, dtype=F32), max_parts=20000)
            S = c.V("stride(simg)")
            P = lambda st, x, y: px(c, st, "pix(simg)", S, x, y, 4, "float", False)
            inner = [(x, y) for y in range(2, h - 2) for x in range(2, w - 2)]
            for st in c.parts:
                n = int(st.ret.cval()) if st.ret.is_const() else None
                if not rep.check(n is not None and 0 <= n <= max(cap, 0), rule, inst + " count", c.fn.where(), "returns %s" % st.ret):
                    continue
                got = []
                for j in range(n):
                    v = {}
                    for f, ty in fields:
                        o, sz = field_off(c.p, "NXKeypoint", f)
                        v[f] = c.outat(st, "keys", 48 * j + o, sz, ty)
                    if not (v["x"].is_const() and v["y"].is_const()):
                        rep.violate(rule, inst, c.fn.where(), "position %s,%s" % (v["x"], v["y"]))
                        break
                    x, y = int(v["x"].cval()), int(v["y"].cval())
                    got.append((x, y))
                    for f, e in (("xs", x), ("ys", y), ("level", 0), ("scale", 1), ("sigma", 1), ("ori", 0), ("id", j), ("score", P(st, x, y))):
                        eq(rep, rule, "%s keypoint %d %s" % (inst, j, f), c, st, v[f], e)
                rep.check(all(b[0] < 48 * n for b in c.written(st, "keys")), rule, inst + " writes", c.fn.where(), "writes past keypoint %d" % n)
                rep.check(got == [q for q in inner if q in got], rule, inst + " raster order", c.fn.where(), "order %s" % got)
                for q in inner:
                    s = P(st, *q)
                    cmp = [s - c.V("threshold")] + [s - P(st, q[0] + dx, q[1] + dy) for dy in (-1, 0, 1) for dx in (-1, 0, 1) if dx or dy]
                    sg = [c.p.sign_under(st.cons, e) for e in cmp]
                    if q in got:
                        rep.check(all(x == POS for x in sg), rule, "%s accepted maximum" % inst, c.fn.where(), "pixel %s is reported without exceeding the threshold and all eight neighbours" % (q,))
                    elif n < cap:
                        rep.check(any(not (x & POS) for x in sg), rule, "%s rejected pixel" % inst, c.fn.where(), "pixel %s can be a maximum above the threshold and is not reported" % (q,))
        except Unsupported as e:
            rep.undecide(inst, e)


def hpow(p, i, st, a):
    """2^e for constant e: exact power of two times the fractional part's symbol; x^n for constant integer n"""
    x, e = a
    if e.is_const():
        n = e.cval()
        k = n.numerator // n.denominator
        if x.is_const() and x.cval() == 2:
            r = p.K(Fraction(2) ** k)
            return r if n == k else r * p.V("pow2(%s)" % (n - k))
        if n == k:
            return x ** k if k >= 0 else p.K(1) / (x ** -k)
    return app(p.ctx, "pow", x, e)


def pyramid(rep):
    rule = "pyramid"
    OPQ = ["nx_image_alloc", "nx_image_free", "nx_image_resize", "nx_image_copy", "nx_image_smooth", "nx_image_downsample", "nx_image_downsample_aa_x", "nx_image_downsample_aa_y", "nx_image_downsample_aa",
           "nx_image_scale", "nx_xmalloc", "nx_xcalloc", "nx_free", "nx_xrealloc"]
    m = kernels([(f, f, None) for f in ("nx_image_pyr_builder_build", "nx_image_pyr_builder_set_fast", "nx_image_pyr_builder_set_fine", "nx_image_pyr_builder_set_scaled", "nx_image_pyr_alloc_levels",
                                        "nx_image_pyr_free_levels", "nx_image_pyr_copy_to_level0", "nx_image_pyr_create_level")], opaque=OPQ, name="p12p")

    def alloc(p, i, st, a):
        k = num(st, "ialloc")
        st.events.append(("ialloc", a))
        return Ptr("im%d" % k, p.K(0))

    def rs(p, i, st, a):
        st.events.append(("resize", a[0].base, a[1:]))
        set_field(p, st, a[0].base, "NXImage", "width", a[1])
        set_field(p, st, a[0].base, "NXImage", "height", a[2])
    H = {"nx_image_alloc": alloc, "nx_image_free": ev("ifree"), "nx_image_resize": rs, "nx_image_copy": ev("copy"), "nx_image_smooth": ev("smooth"), "nx_image_downsample": ev("down"),
         "nx_image_downsample_aa_x": ev("downx"), "nx_image_downsample_aa_y": ev("downy"), "nx_image_scale": ev("scale"), "nx_free": ev("free"), "pow": hpow,
         "nx_xmalloc": lambda p, i, st, a: (st.events.append(("malloc", a)), Ptr("heaplv%d" % num(st, "malloc"), p.K(0)))[1], "nx_image_downsample_aa": ev("downaa")}
    H["nx_xcalloc"] = H["nx_xmalloc"]
    TY = {"fast": 1, "fine": 2, "scaled": 3}

    def enum(name, dflt):
        return dflt
    # configuration
    for kind, args in (("fast", ("n_levels",)), ("fine", ("n_octaves", "n_octave_steps")), ("scaled", ("n_levels",))):
        fn = "nx_image_pyr_builder_set_" + kind
        try:
            c = Case(m, fn, unroll=True, distinct=True, opaque=H)
            for st in c.parts:
                G = lambda f, ty="i32": get_field(c.p, st, "builder", "NXImagePyrBuilder", f, ty)
                w = {"fast": (c.V("n_levels"), c.V("n_levels"), c.K(1), c.K(2)), "fine": (c.V("n_octaves") * c.V("n_octave_steps"), c.V("n_octaves"), c.V("n_octave_steps"), c.K(2)),
                     "scaled": (c.V("n_levels"), None, c.K(1), c.V("scale_factor"))}[kind]
                for f, e in zip(("n_levels", "n_octaves", "n_octave_steps", "scale_factor"), w):
                    if e is not None:
                        eq(rep, rule, "%s %s" % (fn, f), c, st, G("pyr_info." + f, "float" if f == "scale_factor" else "i32"), e)
                s0 = G("pyr_info.sigma0", "float")
                s = c.p.sign_under(st.cons, c.V("sigma0") - c.K(Fraction(1, 2)))
                eq(rep, rule, "%s sigma0 (%s)" % (fn, s), c, st, s0, c.V("sigma0") if not (s & NEG) else c.K(Fraction(1, 2)))
                TY[kind] = int(G("type").cval())
        except Unsupported as e:
            rep.undecide(fn, e)
    rep.check(len(set(TY.values())) == 3, rule, "builder types differ", "src/nx_image_pyr_builder.c", "types %s" % TY)
    # building
    HALF = Fraction(1, 2)
    for kind, no, ns, s0, reuse in (("fast", 3, 1, None, 0), ("fast", 1, 1, HALF, 0), ("fast", 3, 1, HALF, 1), ("fine", 2, 3, None, 0), ("fine", 3, 2, None, 1), ("fine", 2, 1, HALF, 0), ("fine", 1, 2, HALF, 0),
                                    ("scaled", 3, 1, None, 0), ("scaled", 2, 1, HALF, 1), ("scaled", 1, 1, None, 0), ("fine", 2, 2, None, 2), ("fast", 2, 1, None, 2)):
        nl = no * ns
        inst = "build %s, %d x %d levels%s%s" % (kind, no, ns, "" if s0 is None else ", sigma0 0.5", ["", ", pyramid reused", ", pyramid of another size"][reuse])

        def init(p, st):
            for f, v in (("n_levels", nl), ("n_octaves", no if kind != "scaled" else -1), ("n_octave_steps", ns)):
                set_field(p, st, "builder", "NXImagePyrBuilder", "pyr_info." + f, p.K(v))
            set_field(p, st, "builder", "NXImagePyrBuilder", "type", p.K(TY[kind]))
            set_field(p, st, "builder", "NXImagePyrBuilder", "pyr_info.scale_factor", p.K(2) if kind != "scaled" else p.V("f"))
            set_field(p, st, "builder", "NXImagePyrBuilder", "pyr_info.sigma0", p.V("sigma0") if s0 is None else p.K(s0))
            set_field(p, st, "builder", "NXImagePyrBuilder", "work_img", Ptr("work", p.K(0)))
            old = nl if reuse == 1 else 3 if reuse == 2 else 0
            set_field(p, st, "pyr", "NXImagePyr", "n_levels", p.K(old))
            set_field(p, st, "pyr", "NXImagePyr", "levels", Ptr("heapold" if old else "null", p.K(0)))
            for k in range(old):
                o, _ = field_off(p, "NXImagePyrLevel", "img")
                ptr_at(p, st, "heapold", 16 * k + o, Ptr("oldim%d" % k, p.K(0)))
        try:
            c = Case(m, "nx_image_pyr_builder_build", unroll=True, distinct=True, init=init, opaque=H, pre=lambda p: [(p.V("sigma0") - p.K(HALF), POS), (fsqrt(p.ctx, p.V("sigma0") ** 2 - p.K(Fraction(1, 4))), POS)] if s0 is None else [])
            for st in c.parts:
                W0, H0 = c.V("img.width"), c.V("img.height")
                sig0 = c.V("sigma0") if s0 is None else c.K(s0)
                n = get_field(c.p, st, "pyr", "NXImagePyr", "n_levels")
                L = get_field(c.p, st, "pyr", "NXImagePyr", "levels", "ptr")
                if not rep.check(n.same(c.K(nl)) and isinstance(L, Ptr), rule, inst + " levels", c.fn.where(), "%s levels at %s" % (n, L)):
                    continue
                mal = [e[1] for e in st.events if e[0] == "malloc"]
                fr = [e[1][0].base for e in st.events if e[0] == "ifree"]
                if reuse == 1:
                    rep.check(L.base == "heapold" and not mal and not fr, rule, inst + " storage", c.fn.where(), "levels replaced")
                else:
                    tot = mal[0][0] * (mal[0][1] if len(mal[0]) > 1 else c.K(1)) if mal else None
                    rep.check(len(mal) == 1 and tot.same(c.K(16 * nl)), rule, inst + " storage", c.fn.where(), "allocates %s" % mal)
                    if reuse == 2:
                        rep.check(sorted(fr) == ["oldim0", "oldim1", "oldim2"] and any(e[0] == "free" and e[1][0].base == "heapold" for e in st.events), rule, inst + " old levels released", c.fn.where(), "released %s" % fr)
                lev = []
                for k in range(nl):
                    o = {f: field_off(c.p, "NXImagePyrLevel", f)[0] for f in ("img", "sigma", "scale")}
                    im = c.outat(st, L.base, 16 * k + o["img"], 8, "ptr")
                    lev.append(im.base if isinstance(im, Ptr) else "?")
                    sg, sc = c.outat(st, L.base, 16 * k + o["sigma"], 4, "float"), c.outat(st, L.base, 16 * k + o["scale"], 4, "float")
                    e = hpow(c.p, None, None, [c.K(2), c.K(Fraction(k, ns))])
                    eq(rep, rule, "%s level %d sigma" % (inst, k), c, st, sg, sig0 * e)
                    S = c.K(2 ** (k // ns)) if kind != "scaled" else c.V("f") ** k
                    eq(rep, rule, "%s level %d scale" % (inst, k), c, st, sc, S)
                    w, h = (get_field(c.p, st, lev[-1], "NXImage", f) for f in ("width", "height"))
                    for nm, g, d in (("width", w, W0), ("height", h, H0)):
                        ok = isinstance(g, R) and ((g.same(d) and (k // ns == 0 and kind != "scaled" or k == 0)) or g.same(app(c.ctx, "int", d / S)) or g.same(app(c.ctx, "idiv", d, S)))
                        rep.check(ok, rule, "%s level %d %s" % (inst, k, nm), c.fn.where(), "%s is %s" % (nm, g))
                rep.check(len(set(lev)) == nl, rule, inst + " images differ", c.fn.where(), "images %s" % lev)
                # blur bookkeeping: squared blur of every image in its own pixels
                blur = {}
                src0 = {}
                bad = None
                first = next((e for e in st.events if e[0] == "copy"), None)
                if first is None or first[1][0].base != lev[0] or first[1][1].base != "img":
                    rep.violate(rule, inst + " first level", c.fn.where(), "the image is not copied into level 0")
                    continue
                blur[lev[0]] = c.K(Fraction(1, 4))
                fromlev = {lev[0]: 0}
                for e in st.events:
                    if e is first or e[0] not in ("copy", "smooth", "down", "downx", "downy", "downaa", "scale"):
                        continue
                    d, s = e[1][0].base, e[1][1].base
                    if s not in blur:
                        bad = "%s reads %s before it is computed" % (e[0], s)
                        break
                    b = blur[s]
                    if e[0] == "smooth":
                        if not e[1][2].same(e[1][3]):
                            bad = "different smoothing in x and y"
                            break
                        b = b + e[1][2] * e[1][2]
                    elif e[0] == "down":
                        b = b / 4
                    elif e[0] == "scale":
                        b = b * e[1][2] * e[1][2]
                    elif e[0] != "copy":
                        b = ("aa", s, b) if e[0] == "downx" else b
                    blur[d] = b
                    fromlev[d] = (e[0], s, fromlev.get(s))
                rep.check(bad is None, rule, inst + " order", c.fn.where(), bad or "")
                if bad:
                    continue
                for k in range(nl):
                    if lev[k] not in blur:
                        rep.violate(rule, "%s level %d filled" % (inst, k), c.fn.where(), "level %d is never computed" % k)
                        continue
                    if kind == "fast" and k:
                        # half size from the previous level: horizontal then vertical anti-aliased halving
                        f = fromlev[lev[k]]
                        ok = f[0] == "downy" and f[2] and f[2][0] == "downx" and f[2][1] == lev[k - 1] or f[0] == "downaa" and f[1] == lev[k - 1]
                        rep.check(ok, rule, "%s level %d from level %d" % (inst, k, k - 1), c.fn.where(), "level %d is computed by %s" % (k, f[:2]))
                        continue
                    S = c.K(2 ** (k // ns)) if kind != "scaled" else c.V("f") ** k
                    want = sig0 * hpow(c.p, None, None, [c.K(2), c.K(Fraction(k, ns))]) / S
                    eq(rep, rule, "%s level %d blur" % (inst, k), c, st, blur[lev[k]], want * want)
        except Unsupported as e:
            rep.undecide(inst, e)


def brief(rep):
    rule = "brief"
    OPQ = ["nx_uniform_sampler_sample_s", "nx_uniform_sampler_new_with_seed", "nx_uniform_sampler_free", "nx_xmalloc", "nx_free", "time"]
    m2 = kernels([(f, f, None) for f in ("nx_brief_extractor_randomize_with_seed", "nx_brief_extractor_resize")], opaque=OPQ + ["nx_brief_extractor_update_limits"], name="p12c")
    m = kernels([(f, f, None) for f in ("nx_brief_extractor_compute_pyr", "nx_brief_extractor_compute_pyr_at_theta", "nx_brief_extractor_check_point_pyr", "nx_brief_extractor_update_limits",
                                        "nx_brief_extractor_randomize_with_seed", "nx_brief_extractor_resize")], opaque=OPQ, name="p12b")
    W = field = None

    def init(no, active, off=2):
        def f(p, st):
            set_field(p, st, "be", "NXBriefExtractor", "n_octets", p.K(no))
            set_field(p, st, "be", "NXBriefExtractor", "pyr_level_offset", p.K(off))
            set_field(p, st, "be", "NXBriefExtractor", "offsets", Ptr("offs", p.K(0)))
            for k in range(no * 8):
                if k not in active:
                    for q in range(4):
                        st.mem["offs"] = Entry("store", p.K(4 * (4 * k + q)), 4, p.K(0), st.mem.get("offs"))
            set_field(p, st, "pyr", "NXImagePyr", "levels", Ptr("levs", p.K(0)))
            set_field(p, st, "pyr", "NXImagePyr", "n_levels", p.K(6))
            for k in range(6):
                o = {f: field_off(p, "NXImagePyrLevel", f)[0] for f in ("img", "sigma", "scale")}
                ptr_at(p, st, "levs", 16 * k + o["img"], Ptr("I%d" % k, p.K(0)))
                st.mem["levs"] = Entry("store", p.K(16 * k + o["scale"]), 4, p.V("scale%d" % k), st.mem.get("levs"))
                img(p, st, "I%d" % k, p.V("w%d" % k), p.V("h%d" % k))
        return f
    for fn in ("nx_brief_extractor_compute_pyr", "nx_brief_extractor_compute_pyr_at_theta"):
        theta = fn.endswith("theta")
        for no, active in ((1, [0, 7]), (1, [3, 4]), (3, [8, 13]), (2, [15, 1])) if not theta else ((1, [7]), (2, [8]), (1, [2])):
            inst = "%s(%d octets, tests %s)" % (fn, no, active)
            c0 = Ctx()
            try:
                c = Case(m, fn, unroll=True, distinct=True, init=init(no, active), ctx=c0, argvals={4: R.const(c0, 1)}, max_parts=20000, pre=lambda p: [(p.V("scale1"), POS), (p.V("scale3"), POS)])
                sc = c.V("scale1") / c.V("scale3")
                x, y = c.V("x"), c.V("y")
                S = c.V("stride(I3)")
                INT = lambda e: app(c.ctx, "int", e)
                o = lambda k, q: c.V("offs[%d]" % (4 * k + q)) if k in active else c.K(0)
                if theta:
                    ct, sn = fcos(c.ctx, c.V("theta")), fsin(c.ctx, c.V("theta"))
                    X = lambda k, q: INT((x + ct * o(k, q) + sn * o(k, q + 1)) * sc)
                    Y = lambda k, q: INT((y - sn * o(k, q) + ct * o(k, q + 1)) * sc)
                else:
                    X = lambda k, q: INT((x + o(k, q)) * sc)
                    Y = lambda k, q: INT((y + o(k, q + 1)) * sc)
                I = lambda st, k, q: c.p._load(st, None, "pix(I3)", S * Y(k, q) + X(k, q), 1, "i8")
                for st in c.parts:
                    if theta:
                        out = []
                        for k in range(no * 8):
                            for q in (0, 2):
                                for e, mk in ((X(k, q), NN), (Y(k, q), NN), (c.V("w3") - X(k, q), POS), (c.V("h3") - Y(k, q), POS)):
                                    out.append(c.p.sign_under(st.cons, e) & ~mk & ALL)
                                    if not (c.p.sign_under(st.cons, e) & mk):
                                        out[-1] = "out"
                        if st.ret.cval() == 0:
                            rep.check("out" in out, rule, inst + " rejected", c.fn.where(), "rejects a point all of whose samples may be inside")
                            continue
                        rep.check(not any(out), rule, inst + " samples inside", c.fn.where(), "accepts a point with a sample outside the image")
                    bits = []
                    ok = True
                    for k in range(no):
                        v = c.outat(st, "desc", k, 1, "i8")
                        e = 0
                        for j in range(8):
                            s = c.p.sign_under(st.cons, I(st, 8 * k + j, 0) - I(st, 8 * k + j, 2))
                            if s == ALL or (s & POS and s & (NEG | ZERO)):
                                ok = False
                                rep.violate(rule, inst, c.fn.where(), "test %d does not compare its two samples" % (8 * k + j))
                            e = e * 2 + (1 if s == POS else 0)
                        if ok:
                            rep.check(v.is_const() and v.cval() % 256 == e, rule, "%s octet %d" % (inst, k), c.fn.where(), "octet %d is %s, the tests give %d" % (k, v, e))
            except Unsupported as e:
                rep.undecide(inst, e)
    # admissible points
    inst = "nx_brief_extractor_check_point_pyr"
    for lv, off in ((0, 2), (3, 2), (4, 2), (5, 0), (5, 1)):
        c0 = Ctx()
        try:
            c = Case(m, inst, unroll=True, distinct=True, init=init(1, [0], off), ctx=c0, argvals={4: R.const(c0, lv)}, pre=lambda p: [(p.V("scale%d" % k), POS) for k in range(6)])
            for st in c.parts:
                sl = lv + off
                v = st.ret
                if sl > 5:
                    rep.check(v.is_const() and v.cval() == 0, rule, "%s level %d offset %d" % (inst, lv, off), c.fn.where(), "accepts a sampling level that does not exist")
                    continue
                sc = c.V("scale%d" % lv) / c.V("scale%d" % sl) if sl != lv else c.K(1)
                INT = lambda e: app(c.ctx, "int", e)
                lim = [c.V("be.offset_limits[%d]" % k) for k in range(4)]
                mask = []
                for a, l, hi in (("x", 0, 0), ("x", 1, 1), ("y", 2, 0), ("y", 3, 1)):
                    t = INT((c.V(a) + lim[l]) * sc)
                    e = c.V(("w%d" if a == "x" else "h%d") % sl) - t if hi else t
                    s = c.p.sign_under(st.cons, e)
                    want = POS if hi else NN
                    mask.append("in" if not (s & ~want & ALL) else "out" if not (s & want) else "?")
                exp = 0 if "out" in mask else 1 if all(x == "in" for x in mask) else None
                rep.check(v.is_const() and exp is not None and bool(v.cval()) == bool(exp), rule, "%s level %d offset %d" % (inst, lv, off), c.fn.where(),
                          "returns %s when the patch is %s (min/max x, min/max y)" % (v, mask))
        except Unsupported as e:
            rep.undecide(inst, e)
    # limits
    inst = "nx_brief_extractor_update_limits"
    for tests in (((0, 0, 0), (3, 1, 2)), ((7, 2, 3),), ((0, 3, 0), (5, 0, 1))):
        try:
            act = {}
            for t in tests:
                act[(t[0], t[1])] = None

            def ini(p, st):
                set_field(p, st, "be", "NXBriefExtractor", "n_octets", p.K(1))
                set_field(p, st, "be", "NXBriefExtractor", "offsets", Ptr("offs", p.K(0)))
                for k in range(8):
                    for q in range(4):
                        v = p.V("o%d_%d" % (k, q)) if (k, q) in act else p.K((k * 5 + q * 3) % 7 - 3)
                        st.mem["offs"] = Entry("store", p.K(4 * (4 * k + q)), 4, v, st.mem.get("offs"))
            c = Case(m, inst, unroll=True, distinct=True, init=ini, max_parts=20000, pre=lambda p: [(p.V("o%d_%d" % kq) - 2147483647, NEG) for kq in act] + [(p.V("o%d_%d" % kq) + 2147483647, POS) for kq in act])
            for st in c.parts:
                for l, par, sgn in ((0, 0, 1), (1, 0, -1), (2, 1, 1), (3, 1, -1)):
                    v = c.outat(st, "be", field_off(c.p, "NXBriefExtractor", "offset_limits")[0] + 4 * l, 4, "i32")
                    vals = [c.V("o%d_%d" % (k, q)) if (k, q) in act else c.K((k * 5 + q * 3) % 7 - 3) for k in range(8) for q in range(4) if q % 2 == par]
                    ok = any(v.same(x) for x in vals) and all(not (c.p.sign_under(st.cons, (x - v) * sgn) & NEG) for x in vals)
                    rep.check(ok, rule, "%s limit %d, free offsets %s" % (inst, l, sorted(act)), c.fn.where(), "limit is %s when %s" % (v, guard_text(st)[:200]))
        except Unsupported as e:
            rep.undecide(inst, e)
    # test pairs
    inst = "nx_brief_extractor_randomize_with_seed"

    def draw(p, i, st, a):
        k = num(st, "draw")
        if k >= 34:
            return []
        st.events.append(("draw", a))
        # first test symbolic (with one possible rejection), the others fixed
        return p.V("u%d" % k) if k < 6 else p.K(Fraction([1, 1, 7, 7][k % 4], 8))
    H = {"nx_uniform_sampler_sample_s": draw, "nx_uniform_sampler_new_with_seed": ev("new", lambda p, st, a: Ptr("gen", p.K(0))), "nx_uniform_sampler_free": ev("gfree"), "time": ev("time", lambda p, st, a: p.V("now")),
         "nx_xmalloc": ev("malloc", lambda p, st, a: Ptr("offs2", p.K(0))), "nx_free": ev("free"), "nx_brief_extractor_update_limits": ev("limits")}
    try:
        def ini(p, st):
            set_field(p, st, "be", "NXBriefExtractor", "n_octets", p.K(1))
            set_field(p, st, "be", "NXBriefExtractor", "radius", p.K(8))
            set_field(p, st, "be", "NXBriefExtractor", "offsets", Ptr("offs", p.K(0)))
        c = Case(m2, inst, unroll=True, distinct=True, init=ini, opaque=H, max_parts=20000)
        for st in c.parts:
            g = [e for e in st.events if e[0] == "new"]
            rep.check(len(g) == 1 and g[0][1][0].same(c.V("seed")) and all(e[1][0].base == "gen" for e in st.events if e[0] == "draw"), rule, inst + " generator", c.fn.where(), "seed %s" % g)
            rep.check(any(x[0] != "sym" and x[0] >= field_off(c.p, "NXBriefExtractor", "offset_limits")[0] for x in c.written(st, "be")) or max([k for k, e in enumerate(st.events) if e[0] == "limits"], default=-1) > max([k for k, e in enumerate(st.events) if e[0] == "draw"], default=0), rule, inst + " limits updated", c.fn.where(), "the limits are not recomputed after drawing")
            rep.check(num(st, "gfree") == 1, rule, inst + " generator released", c.fn.where(), "generator not released")
            P = [c.outat(st, "offs", 4 * q, 4, "i32") for q in range(32)]
            d2 = (P[2] - P[0]) * (P[2] - P[0]) + (P[3] - P[1]) * (P[3] - P[1])
            s = c.p.sign_under(st.cons, d2 - 9)
            rep.check(not (s & NEG), rule, inst + " pair distance", c.fn.where(), "a test pair can be closer than 3 pixels")
            for q in range(4):
                ok = any(P[q].same(app(c.ctx, "int", (c.V("u%d" % k) - Fraction(1, 2)) * 16)) for k in range(6))
                rep.check(ok, rule, inst + " offset %d" % q, c.fn.where(), "offset %s" % P[q])
            rep.check(all(P[4 * k + q].is_const() for k in range(2, 8) for q in range(4)), rule, inst + " all tests", c.fn.where(), "a test is not set")
    except Unsupported as e:
        rep.undecide(inst, e)
    # resize keeps capacity
    for old, new in ((0, 1), (1, 2), (2, 1), (2, 2)):
        inst = "nx_brief_extractor_resize(%d -> %d octets)" % (old, new)
        c0 = Ctx()

        def ini(p, st):
            set_field(p, st, "be", "NXBriefExtractor", "n_octets", p.K(old))
            set_field(p, st, "be", "NXBriefExtractor", "offsets", Ptr("offs" if old else "null", p.K(0)))
        H2 = dict(H)
        H2["nx_uniform_sampler_sample_s"] = lambda p, i, st, a: (st.events.append(("draw", a)), p.K(Fraction([1, 1, 7, 7][(num(st, "draw") - 1) % 4], 8)))[1]
        try:
            c = Case(m2, "nx_brief_extractor_resize", unroll=True, distinct=True, init=ini, ctx=c0, argvals={1: R.const(c0, new), 2: R.const(c0, 8)}, opaque=H2)
            for st in c.parts:
                G = lambda f, ty="i32": get_field(c.p, st, "be", "NXBriefExtractor", f, ty)
                rep.check(G("n_octets").same(c.K(new)) and G("radius").same(c.K(8)), rule, inst, c.fn.where(), "%s octets radius %s" % (G("n_octets"), G("radius")))
                b = G("offsets", "ptr").base
                mal = [e[1] for e in st.events if e[0] == "malloc"]
                cap = old * 128 if b == "offs" else int(mal[-1][0].cval()) if mal else 0
                rep.check(cap >= new * 128 and not (b == "offs" and any(e[0] == "free" and e[1][0].base == "offs" for e in st.events)), rule, inst + " storage", c.fn.where(), "%d bytes for %d tests" % (cap, new * 8))
                rep.check(all(x[0] != "sym" and x[0] + x[1] <= new * 128 for x in c.written(st, b)) and num(st, "draw") == new * 32, rule, inst + " tests drawn", c.fn.where(), "%d draws" % num(st, "draw"))
        except Unsupported as e:
            rep.undecide(inst, e)


def distance(rep):
    rule = "brief distance"
    ns = (0, 1, 7, 8, 9, 16, 19)
    fn = "nx_brief_extractor_descriptor_distance"
    m = kernels([("d%d" % n, fn, {0: n}) for n in ns], name="p12d")
    tab = None
    for n in ns:
        inst = "%s(%d octets)" % (fn, n)
        try:
            c = Case(m, "d%d" % n, unroll=True, distinct=True)
            for st in c.parts:
                r = st.ret
                if not isinstance(r, R):
                    rep.undecide(inst, "result %s" % r)
                    continue
                terms = {}
                ok = True
                for s, k in _linear_terms(r):
                    terms[c.ctx.names[s]] = terms.get(c.ctx.names[s], 0) + k
                import re
                seen = {}
                tabs = set()
                for t, k in terms.items():
                    g = re.match(r"(@[\w.]+)(?:\[|\{)?.*?xor\(desc([01])(?:\[(\d+)\])?, desc([01])(?:\[(\d+)\])?\)", t)
                    if g and ((g.group(3) or "0") != (g.group(5) or "0") or g.group(2) == g.group(4)):
                        rep.violate(rule, inst, c.fn.where(), "counts %s: the octets do not correspond" % t)
                        break
                    if not g or {g.group(2), g.group(4)} != {"0", "1"} or (g.group(3) or "0") != (g.group(5) or "0"):
                        ok = None if ok else ok
                        rep.undecide(inst, "term %s" % t)
                        break
                    tabs.add(g.group(1)[1:])
                    seen[int(g.group(3) or 0)] = seen.get(int(g.group(3) or 0), 0) + k
                else:
                    rep.check(seen == {j: 1 for j in range(n)}, rule, inst, c.fn.where(), "octets counted: %s" % seen)
                    for t in tabs:
                        try:
                            i = m.globals[t]["init"]
                        except KeyError:
                            continue
                        v = _bytes(i)
                        if v is None:
                            rep.undecide(inst, "table initialiser")
                        else:
                            bad = [j for j, x in enumerate(v) if x != bin(j).count("1")]
                            rep.check(len(v) == 256 and not bad, rule, "bit count table", "src/nx_brief_extractor.c", "entries %s" % bad[:5])
        except Unsupported as e:
            rep.undecide(inst, e)


def _linear_terms(r):
    for mono, k in r.n.t.items():
        if not mono and k == 0:
            continue
        if len(mono) == 1 and mono[0][1] == 1:
            yield mono[0][0], k / r.d.cval()
        else:
            raise Unsupported("result %s" % r.show()[:200])


def _bytes(i):
    try:
        if i[0] == "agg":
            return [int(v[1]) for v in i[1]]
        if i[0] == "str":
            return [ord(x) if isinstance(x, str) else x for x in i[1]]
    except Exception:
        return None
