"""Colour conversion and colour maps."""
from vlib.pix import *

LEVEL = "proof"
NN = POS | ZERO
CONV = [("nx_convert_%s_%s" % (a, b), a, b) for a in ("gray_to_rgba", "rgba_to_gray") for b in ("uc", "f32")]
MAPS = ["VIRIDIS", "PLASMA", "MAGMA", "CUBEHELIX"]


def run(rep):
    rep.assumptions = ["colour-map arguments are in 0..1", "source and result do not overlap", "real arithmetic; float rounding not modelled"]
    m = kernels([(n, n, None) for n, _, _ in CONV] + [(n, n, None) for n in ("nx_rgb_to_gray_uc", "nx_rgb_to_gray_f32", "nx_color_map_apply")], name="p06")

    def case(mod, n, **kw):
        try:
            return Case(mod, n, **kw)
        except (Unsupported, ZeroDivisionError) as e:
            rep.undecide(n, e)

    def gray_ok(c, cs, v, r, g, b, t, inst):
        """v is the clamped weighted sum of r, g, b"""
        lin = r * tofrac(0.3) + g * tofrac(0.59) + b * tofrac(0.11)
        top = 255 if t == "uc" else 1
        e = app(c.ctx, "int", lin) if t == "uc" else lin
        s0, s1 = c.p.sign_under(cs, e), c.p.sign_under(cs, e - top)
        if not isinstance(v, R):
            return False, "%s" % v
        if v.same(e):
            return not (s0 & NEG) and not (s1 & POS), "stored without clamping to 0..%d" % top
        if v.is_const():
            x = v.cval() + (256 if v.cval() < 0 and t == "uc" else 0)
            if x == 0:
                return not (s0 & POS), "0 is stored although the weighted sum %s may be positive" % e.show()[:120]
            if x == top:
                return not (s1 & NEG), "%d is stored although the weighted sum may be smaller" % top
        if t == "uc" and lin is not None and differ(c.ctx, v, e, cs) is False:
            return None, v.show()
        return False, "computes %s, the definition is %s clamped to 0..%d" % (v.show()[:160], e.show()[:160], top)

    for t in ("uc", "f32"):
        n = "nx_rgb_to_gray_" + t
        c = case(m, n)
        if c:
            for st in c.parts:
                good, why = gray_ok(c, st.cons, st.ret, c.V("r"), c.V("g"), c.V("b"), t, n)
                if good is None:
                    rep.undecide(n, why)
                else:
                    rep.check(good, "formula", n, c.fn.where(), "%s (when %s)" % (why, guard_text(st)))
    for n, kind, t in CONV:
        c = case(m, n)
        if not c:
            continue
        es, ty = (1, "i8") if t == "uc" else (4, "float")
        s, d = kind.split("_to_")
        W, H = c.V("width"), c.V("height")
        S = c.V(s + "_stride")
        im = Img(c, d, es, d + "_stride", [(W - 1, NN), (H - 1, NN)])
        try:
            bad = im.full(H, W * 4 if d == "rgba" else W)
            rep.check(bad is None, "every result pixel written", n, c.fn.where(), bad or "")
            for y, x, v, cs, st in im.pieces:
                rd = lambda q: c.p._load(st, None, s, (S * y + q) * es, es, ty)
                if d == "rgba":
                    for ch in range(4):
                        q = (x - ch) / c.K(4)
                        if q.d.is_const() and all(k.denominator == 1 for k in q.n.t.values()):
                            break
                    else:
                        rep.undecide(n, "byte position %s" % x.show())
                        continue
                    e = rd(q) if ch < 3 else c.K(255 if t == "uc" else 1)
                    good = isinstance(v, R) and (v.same(e) or (ch == 3 and t == "uc" and v.same(-1)))
                    rep.check(good, "pixel formula", "%s: channel %d" % (n, ch), c.fn.where(), "writes %s, the definition is %s" % (v, e.show()))
                else:
                    good, why = gray_ok(c, cs, v, rd(x * 4), rd(x * 4 + 1), rd(x * 4 + 2), t, n)
                    if good is None:
                        rep.undecide(n, why)
                    else:
                        rep.check(good, "pixel formula", n, c.fn.where(), "%s (when %s)" % (why, guard_text(st)[:200]))
        except Gap as g:
            rep.violate("every result pixel written", n, c.fn.where(), str(g))
        except Unsupported as e:
            rep.undecide(n, e)
    sized(rep, gray_ok)
    colormap(rep, m)
    convert_type(rep)
    rep.need("pixel formula", 10)
    rep.need("formula", 5)


def sized(rep, gray_ok):
    """fixed sizes and unrelated strides, symbolic samples: element by element"""
    SZ = [(2, 2, 5, 14), (1, 3, 2, 11)]
    m = kernels([("%s_%d" % (n, k), n, {0: w, 1: h}) for n, _, _ in CONV for k, (w, h, _, _) in enumerate(SZ)], name="p06s")
    for n, kind, t in CONV:
        es, ty = (1, "i8") if t == "uc" else (4, "float")
        s, d = kind.split("_to_")
        for k, (w, h, gs, rs) in enumerate(SZ):
            inst = "%s(%dx%d, strides %d/%d)" % (n, w, h, gs, rs)
            c0 = Ctx()
            ds, ss = (rs, gs) if d == "rgba" else (gs, rs)
            try:
                c = Case(m, "%s_%d" % (n, k), unroll=True, distinct=True, ctx=c0, argvals={3: R.const(c0, ds), 5: R.const(c0, ss)}, max_parts=20000)
                for st in c.parts:
                    rd = lambda y, q: c.p._load(st, None, s, c.K((ss * y + q) * es), es, ty)
                    want = set()
                    for y in range(h):
                        for x in range(w):
                            for ch in range(4 if d == "rgba" else 1):
                                o = ds * y + (4 * x + ch if d == "rgba" else x)
                                want.add(o * es)
                                v = c.outat(st, d, o * es, es, ty)
                                if d == "rgba":
                                    e = rd(y, x) if ch < 3 else c.K(255 if t == "uc" else 1)
                                    good = isinstance(v, R) and (v.same(e) or (ch == 3 and t == "uc" and v.same(-1)))
                                    rep.check(good, "sized pixel", "%s (%d,%d) channel %d" % (inst, x, y, ch), c.fn.where(), "holds %s, the definition is %s" % (v, e.show()))
                                else:
                                    good, why = gray_ok(c, st.cons, v, rd(y, 4 * x), rd(y, 4 * x + 1), rd(y, 4 * x + 2), t, n)
                                    if good is not None:
                                        rep.check(good, "sized pixel", "%s (%d,%d)" % (inst, x, y), c.fn.where(), why)
                    ex = [o for o, z in c.written(st, d) if o not in want]
                    rep.check(not ex, "sized pixel", inst + " nothing else", c.fn.where(), "also writes at byte offsets %s" % ex[:5])
            except (Unsupported, ZeroDivisionError) as e:
                rep.undecide(inst, e)


def colormap(rep, m):
    n = "nx_color_map_apply"
    enum = m.enum("NXColorMap")
    try:
        c = Case(m, n)
    except Unsupported as e:
        rep.undecide(n, e)
        return
    V, K = c.V, c.K
    done = set()
    for st in c.parts:
        if c.p.assume(st.cons, V("value"), NN) is None or c.p.assume(st.cons, V("value") - 1, NEG | ZERO) is None:
            continue
        which = [k for k, v in enum.items() if not c.p.sign_under(st.cons, V("map") - v) & (NEG | POS)]
        other = not which
        name = which[0] if which else "gray"
        outs = []
        for ch in ("red", "green", "blue"):
            e = st.mem.get(ch)
            outs.append(e.val if e is not None and e.kind == "store" and e.off.same(0) and e.prev is None else None)
        short = name.replace("NX_COLOR_MAP_", "").lower()
        if short == "gray" or other:
            for ch, v in zip("rgb", outs):
                rep.check(isinstance(v, R) and v.same(app(c.ctx, "int", V("value") * 255)), "formula", "%s: gray %s" % (n, ch), c.fn.where(), "stores %s for value*255" % v)
            done.add("gray")
            continue
        tab = [g for g in m.globals if g.split(".")[0] == "nx_color_map_data_" + short]
        tabs = {v.split("[")[0] for o in outs if isinstance(o, R) for v in allvars(c.ctx, o) if v.startswith("@")}
        rep.check(len(tabs) == 1 and tabs <= {"@" + t for t in tab}, "each map reads its own table", short, c.fn.where(), "the colour is taken from %s" % sorted(tabs))
        done.add(short)
        if len(tabs) != 1:
            continue
        T = tabs.pop()[1:]
        rows = table(m, T)
        if rows is None:
            rep.undecide(short, "table initialiser")
            continue
        N = len(rows)
        k = app(c.ctx, "int", V("value") * (N - 1))
        al = V("value") * (N - 1) - k
        last = not c.p.sign_under(st.cons, k - (N - 1)) & (NEG | POS)
        notlast = not c.p.sign_under(st.cons, k - (N - 1)) & ZERO
        for ch in range(3):
            g = lambda q: c.p._load(st, None, "@" + T, (q * 3 + ch) * 4, 4, "float")
            e = g(k) if not last else g(K(N - 1))
            if not last:
                e = (1 - al) * g(k) + al * g(k + 1)
            e = app(c.ctx, "int", e * 255)
            v = outs[ch]
            inst = "%s: %s channel %d%s" % (n, short, ch, " (end of table)" if last else "")
            if not last and not notlast:
                # the last row's right neighbour would be read
                rep.violate("formula", inst, c.fn.where(), "row %d is read as right neighbour of the last row when value = 1" % N)
                continue
            good = isinstance(v, R) and v.same(e)
            if not good and isinstance(v, R) and differ(c.ctx, v, e, st.cons) is False:
                rep.undecide(inst, v.show()[:200])
                continue
            rep.check(good, "formula", inst, c.fn.where(), "stores %s, the definition is %s" % (v.show()[:200] if isinstance(v, R) else v, e.show()[:200]))
    rep.check({"gray"} | {x.lower() for x in MAPS} <= done, "formula", n + ": every map handled", c.fn.where(), "maps handled: %s" % sorted(done))
    for x in MAPS:
        T = [g for g in m.globals if g.split(".")[0] == "nx_color_map_data_" + x.lower()]
        rows = table(m, T[0]) if T else None
        if rows is None:
            rep.undecide(x, "colour table not found")
            continue
        bad = [k for k, r in enumerate(rows) if not all(0 <= v <= 1 for v in r)]
        rep.check(not bad, "colour table entries are in 0..1", x, "src/nx_color_map_data.h", "rows %s" % bad[:5])
        # a published colour map is smooth: neighbouring rows and the slope change little
        bad = [k for k in range(1, len(rows) - 1) for ch in range(3) if abs(rows[k - 1][ch] - 2 * rows[k][ch] + rows[k + 1][ch]) > 0.008]
        rep.check(not bad, "colour table is smooth", x, "src/nx_color_map_data.h", "rows %s break the progression" % bad[:5])


def allvars(ctx, e):
    out = set()
    for s in e.syms():
        inf = ctx.appinfo.get(s)
        if inf:
            for a in inf[1]:
                out |= allvars(ctx, a)
        else:
            out.add(ctx.names[s])
    return out


def table(m, g):
    i = m.globals[g].get("init")
    try:
        return [[ir.fconst(v) if v[0] == "f" else 0.0 for v in (r[1] if r[0] == "agg" else [["zero"]] * 3)] for r in i[1]]
    except Exception:
        return None


def convert_type(rep):
    n = "nx_image_convert_type"
    ev = lambda nm: (lambda p, i, st, a: st.events.append((nm, a)))
    h = dict(HANDLERS)
    for f, _, _ in CONV:
        h[f] = ev(f)
    h["nx_image_free"] = ev("free")

    def copy0(p, i, st, a):
        for f in ("width", "height", "type", "dtype", "n_channels", "row_stride"):
            set_field(p, st, "cpy", "NXImage", f, get_field(p, st, a[0].base, "NXImage", f))
        set_field(p, st, "cpy", "NXImage", "data", Ptr("pix(cpy)", p.K(0)))
        # the copy has a stride of its own
        set_field(p, st, "cpy", "NXImage", "row_stride", p.V("stride(cpy)"))
        st.events.append(("copy0", a))
        return Ptr("cpy", p.K(0))
    h["nx_image_copy0"] = copy0
    h["nx_image_copy"] = lambda p, i, st, a: copy0(p, i, st, a[1:]) and None
    m = kernels([(n, n, None)], opaque=list(h), name="p06t")
    try:
        c = Case(m, n, opaque=h)
    except Unsupported as e:
        rep.undecide(n, e)
        return
    V = c.V
    T = m.enum("NXImageType")
    D = m.enum("NXImageDataType")
    for st in c.parts:
        z = lambda e: c.p.sign_under(st.cons, e) == ZERO
        conv = [e for e in st.events if e[0].startswith("nx_convert")]
        names = [e[0] for e in st.events]
        if z(V("img.type") - V("type")) or any(any(v.startswith("nonnull:") for v in e.vars()) and m2 == ZERO for e, m2 in st.cons):
            rep.check(not conv and "resize" not in names, "type conversion dispatch", n + ": nothing to do", c.fn.where(), "events %s" % names)
            continue
        src = [k for k, v in T.items() if z(V("img.type") - v)]
        dst = [k for k, v in T.items() if z(V("type") - v)]
        dt = [k for k, v in D.items() if z(V("img.dtype") - v)]
        if not src or not dst or not dt:
            rep.violate("type conversion dispatch", n, c.fn.where(), "returns without converting when %s" % guard_text(st)[:300])
            continue
        inst = "%s: %s to %s, %s" % (n, src[0], dst[0], dt[0])
        w = "nx_convert_%s_%s" % ("gray_to_rgba" if src[0].endswith("GRAYSCALE") else "rgba_to_gray", "uc" if dt[0].endswith("UCHAR") else "f32")
        ok = len(conv) == 1 and conv[0][0] == w
        why = "calls %s" % [x[0] for x in conv]
        if ok:
            a = conv[0][1]
            ok = (z(a[0] - V("img.width")) and z(a[1] - V("img.height")) and isinstance(a[2], Ptr) and a[2].base == "pix(img)" and a[2].off.same(0) and
                  a[3].same(V("stride(img)")) and isinstance(a[4], Ptr) and a[4].base == "pix(cpy)" and a[5].same(V("stride(cpy)")))
            why = "converts with (%s)" % ", ".join(x.show() if isinstance(x, R) else repr(x) for x in a)
            rs = [e for e in st.events if e[0] == "resize"]
            if ok:
                ok = len(rs) == 1 and z(rs[0][2][0] - V("img.width")) and z(rs[0][2][1] - V("img.height")) and z(rs[0][2][3] - V("type")) and z(rs[0][2][4] - V("img.dtype"))
                why = "resized to %s" % (rs and [x.show() for x in rs[0][2]])
            if ok:
                ok = "copy0" in names and names.index("copy0") < names.index("resize") < names.index(w) and "free" in names and names.index("free") > names.index(w)
                why = "order of operations: %s" % names
        rep.check(ok, "type conversion dispatch", inst, c.fn.where(), why)
