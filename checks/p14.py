"""SIFT: scale space, extrema, peak refinement, orientations, descriptors, key store, cache, matching, files."""
from vlib.pix import *
from checks.p12 import img, num, ev, eq, ptr_at, hpow
from checks.p13 import f32, lin, strip_int, near
import math

LEVEL = "bounded"
F32 = 1
DIM = 128
KEY = (("x", "i32"), ("y", "i32"), ("xs", "float"), ("ys", "float"), ("level", "i32"), ("scale", "float"), ("sigma", "float"), ("score", "float"), ("ori", "float"), ("id", "i64"))


def run(rep):
    for part in (store, extrema, refine, keys, orihist, descriptor, quantise, octaves, driver, matching, cache, matchcache, files):
        try:
            part(rep)
        except Unsupported as e:
            rep.undecide(part.__name__, e)
    for r, n in (("key store", 8), ("extrema", 40), ("peak refinement", 30), ("keypoints", 20), ("orientation", 40), ("descriptor", 100), ("scale space", 20), ("matching", 40), ("cache", 20), ("file", 8)):
        rep.need(r, n)


def store_at(p, st, base, off, size, v):
    st.mem[base] = Entry("store", p.K(off), size, v if isinstance(v, (R, Ptr)) else p.K(v), st.mem.get(base))


def kstore(p, st, base, n, cap):
    for f, v in (("n", p.K(n)), ("cap", p.K(cap)), ("keys", Ptr("heapkeys", p.K(0))), ("desc", Ptr("heapdesc", p.K(0)))):
        set_field(p, st, base, "NXSIFTKeyStore", f, v)


def param(p, st, base, path="param", **kw):
    for f, v in kw.items():
        set_field(p, st, base, "NXSIFTDetector", path + "." + f if path else f, v if isinstance(v, R) else p.K(v))


def realloc(p, i, st, a):
    st.events.append(("realloc", a))
    return Ptr("heapre_%s_%d" % (a[0].base, num(st, "realloc")), p.K(0))


def store(rep):
    rule = "key store"
    fn = "nx_sift_key_store_append"
    m = kernels([(fn, fn, None)], opaque=["nx_xrealloc"], name="p14s")
    for n, cap in ((0, 0), (0, 1), (1, 1), (2, 2), (3, 5), (5, 5), (10, 10), (1000, 1000)):
        inst = "%s(n=%d, cap=%d)" % (fn, n, cap)
        try:
            c = Case(m, fn, unroll=True, distinct=True, init=lambda p, st: kstore(p, st, "store", n, cap), opaque={"nx_xrealloc": realloc})
            for st in c.parts:
                g = lambda f, ty="i32": get_field(c.p, st, "store", "NXSIFTKeyStore", f, ty)
                rep.check(st.ret.same(c.K(n)) and g("n").same(c.K(n + 1)), rule, inst + " id", c.fn.where(), "returns %s, n becomes %s" % (st.ret, g("n")))
                nc = g("cap")
                re = {e[1][0].base: e[1][1] for e in st.events if e[0] == "realloc"}
                if n < cap:
                    rep.check(nc.same(c.K(cap)) and not re, rule, inst + " capacity", c.fn.where(), "capacity %s" % nc)
                    continue
                ok = nc.is_const() and nc.cval() > n
                rep.check(ok, rule, inst + " grows", c.fn.where(), "capacity becomes %s with %d keypoints stored" % (nc, n + 1))
                if not ok:
                    continue
                for b, sz, f in (("heapkeys", 48, "keys"), ("heapdesc", DIM, "desc")):
                    q = re.get(b)
                    pp = g(f, "ptr")
                    rep.check(q is not None and q.is_const() and q.cval() >= nc.cval() * sz and isinstance(pp, Ptr) and pp.base.startswith("heapre_" + b), rule, inst + " " + f, c.fn.where(), "%s reallocated to %s bytes, pointer %s" % (f, q, pp))
        except Unsupported as e:
            rep.undecide(inst, e)


def dogs(p, st, w, h, n=3, strides=(4, 5, 6)):
    set_field(p, st, "det", "NXSIFTDetector", "dogs", Ptr("heapdogs", p.K(0)))
    for k in range(n):
        ptr_at(p, st, "heapdogs", 8 * k, Ptr("dog%d" % k, p.K(0)))
        img(p, st, "dog%d" % k, w, h, stride=strides[k] + w - 3, dtype=F32)


def D(c, k, x, y, w, strides=(4, 5, 6)):
    return c.p._load(None, None, "pix(dog%d)" % k, c.K(4 * ((strides[k] + w - 3) * y + x)), 4, "float")


def extrema(rep):
    rule = "extrema"
    fn = "nx_sift_process_dog"
    m = kernels([(fn, fn, None)], opaque=["nx_sift_interp_peak_location"], name="p14e")
    E8 = f32(0.8)
    for w, h, B in ((3, 3, 1), (5, 5, 2)):
        inst = "%s(%dx%d, border %d)" % (fn, w, h, B)

        def init(p, st):
            param(p, st, "det", n_scales_per_octave=3, peak_threshold=p.V("peak") * 3, edge_threshold=p.V("edge"), border_distance=B)
            dogs(p, st, w, h)
        c0 = Ctx()
        inner = [(x, y) for y in range(B, h - B) for x in range(B, w - B)]
        try:
            c = Case(m, fn, unroll=True, distinct=True, ctx=c0, argvals={4: R.const(c0, 1)}, init=init, opaque={"nx_sift_interp_peak_location": ev("peak")}, max_parts=60000, pre=lambda p: [(p.V("peak"), POS)], deadline=200)
            for st in c.parts:
                pk = [e[1] for e in st.events if e[0] == "peak"]
                got = []
                for a in pk:
                    rep.check(a[0].base == "det" and a[1].base == "store" and a[2].same(c.V("octave")) and a[3].same(c.V("sigma_c")) and a[4].same(c.K(1)), rule, inst + " arguments", c.fn.where(), "refines with octave %s, sigma %s, scale %s" % (a[2], a[3], a[4]))
                    got.append((int(a[5].cval()), int(a[6].cval())) if a[5].is_const() and a[6].is_const() else (a[5], a[6]))
                rep.check(all(q in inner for q in got) and got == [q for q in inner if q in got], rule, inst + " raster order", c.fn.where(), "reports %s" % (got,))
                for q in inner:
                    x, y = q
                    s = D(c, 1, x, y, w)
                    nb = [s - D(c, k, x + dx, y + dy, w) for k in range(3) for dy in (-1, 0, 1) for dx in (-1, 0, 1) if dx or dy or k != 1]
                    HA = D(c, 1, x, y - 1, w) - s * 2 + D(c, 1, x, y + 1, w)
                    HB = D(c, 1, x - 1, y, w) - s * 2 + D(c, 1, x + 1, y, w)
                    HC = (D(c, 1, x + 1, y + 1, w) - D(c, 1, x - 1, y + 1, w) - D(c, 1, x + 1, y - 1, w) + D(c, 1, x - 1, y - 1, w)) / 4
                    t = c.V("edge")
                    edge = (HA * HB - HC * HC) * (t + 1) * (t + 1) - t * (HA + HB) * (HA + HB)
                    thr = c.V("peak") * Fraction(4, 5)
                    sg = lambda e: c.p.sign_under(st.cons, e)
                    ss, es = sg(s), sg(edge)
                    def above(v):
                        # the literal 0.8 is rounded to double
                        r = sg(v - thr)
                        for kk in (Fraction(0.8), E8):
                            r &= sg(v - c.V("peak") * kk)
                        return r
                    hi = above(s)
                    lo = above(-s)
                    up = [sg(e) for e in nb]
                    mx = ss == POS and hi == POS and all(v == POS for v in up)
                    mn = ss == NEG and lo == POS and all(v == NEG for v in up)
                    if q in got:
                        rep.check((mx or mn) and es == POS, rule, inst + " accepted extremum", c.fn.where(), "position %s is refined although it is not a strict extremum of its 26 neighbours above the thresholds (sign %s, edge %s)" % (q, ss, es))
                    else:
                        possmx = (ss & POS) and (hi & POS) and all(v & POS for v in up)
                        possmn = (ss & NEG) and (lo & POS) and all(v & NEG for v in up)
                        rep.check(not ((possmx or possmn) and (es & POS)), rule, inst + " rejected position", c.fn.where(), "position %s can be an extremum passing the thresholds and is not refined (when %s)" % (q, guard_text(st)[:300]))
        except Unsupported as e:
            rep.undecide(inst, e)

    # positions: one non-zero sample in an otherwise flat stack is found exactly inside the border
    for w, h, B in ((4, 3, 1), (3, 4, 1), (6, 5, 2), (5, 6, 2), (4, 4, 2), (2, 3, 1), (7, 6, 1)):
        for px in range(w):
            for py in range(h):
                inst = "%s(%dx%d, border %d, sample %d,%d)" % (fn, w, h, B, px, py)

                def init(p, st):
                    param(p, st, "det", n_scales_per_octave=3, peak_threshold=p.V("peak") * 3, edge_threshold=p.K(10), border_distance=B)
                    dogs(p, st, w, h)
                    for k in range(3):
                        st.mem["pix(dog%d)" % k] = Entry("zero", p.K(0), 4 * (k + 4 + w - 3) * h, None, None)
                    st.mem["pix(dog1)"] = Entry("store", p.K(4 * ((5 + w - 3) * py + px)), 4, p.V("s"), st.mem["pix(dog1)"])
                c0 = Ctx()
                try:
                    c = Case(m, fn, unroll=True, distinct=True, ctx=c0, argvals={4: R.const(c0, 1)}, init=init, opaque={"nx_sift_interp_peak_location": ev("peak")}, pre=lambda p: [(p.V("peak"), POS), (p.V("s") - p.V("peak"), POS), (p.V("s"), POS), (p.V("s") * p.V("s"), POS), (p.V("s") - p.V("peak") * Fraction(4, 5), POS)])
                except Unsupported as e:
                    rep.undecide(inst, e)
                    continue
                want = [(px, py)] if B <= px < w - B and B <= py < h - B else []
                for st in c.parts:
                    got = [tuple(int(v.cval()) if v.is_const() else str(v) for v in e[1][5:7]) for e in st.events if e[0] == "peak"]
                    rep.check(got == want, rule, inst, c.fn.where(), "extrema found at %s, expected %s" % (got, want))


def refine(rep):
    rule = "peak refinement"
    fn = "nx_sift_interp_peak_location"
    m = kernels([(fn, fn, None)], opaque=["nx_dmat3_sym_solve_single", "nx_sift_compute_keys"], name="p14r")
    W, H = 12, 11
    ST = (4, 5, 6)

    def go(label, x0, y0, answers, want_final, want_path):
        """answers: per call None (no solution) or (b0,b1,b2) numbers/None=symbolic"""
        inst = "%s(%s)" % (fn, label)

        def solve(p, i, st, a):
            k = num(st, "solve")
            M = [p._load(st, st.mem.get(a[0].base), a[0].base, a[0].off + 8 * j, 8, "double") for j in range(9)]
            v = [p._load(st, st.mem.get(a[1].base), a[1].base, a[1].off + 8 * j, 8, "double") for j in range(3)]
            st.events.append(("solve", M, v))
            ans = answers[min(k, len(answers) - 1)]
            if ans is None:
                return p.K(0)
            for j in range(3):
                st.mem[a[1].base] = Entry("store", a[1].off + 8 * j, 8, p.V("b%d_%d" % (k, j)) if ans[j] is None else p.K(ans[j]), st.mem.get(a[1].base))
            return p.K(1)

        def init(p, st):
            param(p, st, "det", n_scales_per_octave=3, peak_threshold=p.V("peak") * 3)
            dogs(p, st, W, H)
        c0 = Ctx()
        try:
            c = Case(m, fn, unroll=True, distinct=True, ctx=c0, argvals={4: R.const(c0, 1), 5: R.const(c0, x0), 6: R.const(c0, y0)}, init=init,
                     opaque={"nx_dmat3_sym_solve_single": solve, "nx_sift_compute_keys": ev("keys")}, max_parts=20000, pre=lambda p: [(p.V("peak"), POS)])
        except Unsupported as e:
            rep.undecide(inst, e)
            return
        for st in c.parts:
            d = lambda k, x, y: D(c, k, x, y, W)
            so = [e for e in st.events if e[0] == "solve"]
            ks = [e[1] for e in st.events if e[0] == "keys"]
            path = want_path(c, st) if callable(want_path) else want_path
            if path is None:
                rep.undecide(inst, "the step is not decided on a path")
                continue
            if not rep.check(len(so) == len(path), rule, inst + " iterations", c.fn.where(), "solves %d times, expected %d (when %s)" % (len(so), len(path), guard_text(st)[:200])):
                continue
            for k, ((x, y), e) in enumerate(zip(path, so)):
                g = [(d(1, x + 1, y) - d(1, x - 1, y)) / 2, (d(1, x, y + 1) - d(1, x, y - 1)) / 2, (d(2, x, y) - d(0, x, y)) / 2]
                hxx = d(1, x - 1, y) - d(1, x, y) * 2 + d(1, x + 1, y)
                hyy = d(1, x, y - 1) - d(1, x, y) * 2 + d(1, x, y + 1)
                hss = d(0, x, y) - d(1, x, y) * 2 + d(2, x, y)
                hxy = (d(1, x + 1, y + 1) - d(1, x - 1, y + 1) - d(1, x + 1, y - 1) + d(1, x - 1, y - 1)) / 4
                hxs = (d(2, x + 1, y) - d(2, x - 1, y) - d(0, x + 1, y) + d(0, x - 1, y)) / 4
                hys = (d(2, x, y + 1) - d(2, x, y - 1) - d(0, x, y + 1) + d(0, x, y - 1)) / 4
                Hm = {(0, 0): hxx, (0, 1): hxy, (0, 2): hxs, (1, 1): hyy, (1, 2): hys, (2, 2): hss}
                for j in range(3):
                    eq(rep, rule, "%s right-hand side %d" % (inst, j), c, st, e[2][j], -g[j])
                # the triangle that the solver reads holds the Hessian
                tri = [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)]
                for (i, j) in tri:
                    w = Hm[(i, j)]
                    lo, up = e[1][3 * i + j], e[1][3 * j + i]
                    eq(rep, rule, "%s Hessian %d%d" % (inst, i, j), c, st, lo, w)
            x, y = path[-1]
            b = [c.p._load(None, None, "x", c.K(0), 8, "double")] * 3
            ans = answers[min(len(path) - 1, len(answers) - 1)]
            if ans is None:
                rep.check(not ks, rule, inst + " unsolvable", c.fn.where(), "creates keypoints from an unsolvable system")
                continue
            b = [c.V("b%d_%d" % (len(path) - 1, j)) if ans[j] is None else c.K(ans[j]) for j in range(3)]
            g = [(d(1, x + 1, y) - d(1, x - 1, y)) / 2, (d(1, x, y + 1) - d(1, x, y - 1)) / 2, (d(2, x, y) - d(0, x, y)) / 2]
            dv = d(1, x, y) + (g[0] * b[0] + g[1] * b[1] + g[2] * b[2]) / 2
            sg = lambda e: c.p.sign_under(st.cons, e)
            if ks:
                a = ks[0]
                rep.check(len(ks) == 1 and a[0].base == "det" and a[1].base == "store" and a[2].same(c.V("octave")) and a[3].same(c.V("sigma_c")), rule, inst + " call", c.fn.where(), "keypoint call %s" % (a,))
                for nm, gt, w in (("value", a[4], dv), ("scale", a[5], b[2] + 1), ("x", a[6], b[0] + x), ("y", a[7], b[1] + y)):
                    eq(rep, rule, "%s %s" % (inst, nm), c, st, gt, w)
                ok = all(not (sg(v - Fraction(3, 2)) & POS) and not (sg(v + Fraction(3, 2)) & NEG) for v in b)
                ab = not (sg(dv - c.V("peak")) & NEG) or not (sg(-dv - c.V("peak")) & NEG)
                rep.check(ok and ab, rule, inst + " accepted", c.fn.where(), "accepts offsets %s (when %s)" % ([v.show() for v in b], guard_text(st)[:300]))
            else:
                ok = any(not (sg(v - Fraction(3, 2)) & (NEG | ZERO)) or not (sg(v + Fraction(3, 2)) & (POS | ZERO)) for v in b)
                ds = sg(dv)
                be = all(not (sg(v - c.V("peak")) & (POS | ZERO)) for v in ([dv] if ds & POS else []) + ([-dv] if ds & NEG else []))
                rep.check(ok or be, rule, inst + " rejected", c.fn.where(), "drops a peak within 1.5 samples and above the threshold (when %s)" % guard_text(st)[:300])
    T = Fraction(3, 5)

    def one(x0, y0):
        """first step from the signs of the symbolic offsets, then no solution"""
        def f(c, st):
            sg = lambda e: c.p.sign_under(st.cons, e)
            b0, b1 = c.V("b0_0"), c.V("b0_1")
            out = []
            for v, q, hi in ((b0, x0, W - 3), (b1, y0, H - 3)):
                # the literal 0.6 is a double next to 3/5
                t = [Fraction(0.6), T, f32(0.6)]
                gt = any(sg(v - z) == POS for z in t)
                lt = any(sg(v + z) == NEG for z in t)
                le = any(not (sg(v - z) & POS) for z in t)
                ge = any(not (sg(v + z) & NEG) for z in t)
                dd = None
                if q < hi and q > 3:
                    dd = 1 if gt else -1 if lt else 0 if le and ge else None
                elif q >= hi and q > 3:
                    dd = -1 if lt else 0 if ge else None
                elif q < hi:
                    dd = 1 if gt else 0 if le else None
                out.append(dd)
            if None in out:
                return None
            return [(x0, y0)] if out == [0, 0] else [(x0, y0), (x0 + out[0], y0 + out[1])]
        return f
    sym = (None, None, None)
    for x0, y0 in ((5, 5), (3, 5), (9, 5), (5, 3), (5, 8), (8, 7), (4, 4)):
        go("start %d,%d" % (x0, y0), x0, y0, [sym, None], None, one(x0, y0))
    q = Fraction
    go("five steps", 5, 4, [(1, 0, 0), (q(7, 10), 1, 0), (0, q(9, 10), 0), (-1, -1, 0), (q(4, 5), q(1, 5), q(1, 4))], None, [(5, 4), (6, 4), (7, 5), (7, 6), (6, 5)])
    go("settles", 5, 4, [(1, 0, 0), (q(1, 10), q(-1, 5), q(3, 10))], None, [(5, 4), (6, 4)])
    go("far scale", 5, 4, [(q(1, 10), q(1, 5), 2)], None, [(5, 4)])
    go("solves then fails", 5, 4, [(1, 1, 0), None], None, [(5, 4), (6, 5)])


def keys(rep):
    rule = "keypoints"
    fn = "nx_sift_compute_keys"
    m = kernels([(fn, fn, None)], opaque=["nx_sift_compute_ori_hist", "nx_sift_compute_descriptor", "nx_xrealloc", "pow"], name="p14k")
    N = 36
    base = [Fraction(1) for _ in range(N)]

    def go(label, bins, cap=6):
        inst = "%s(%s)" % (fn, label)
        vals = dict(bins)

        def hist(p, i, st, a):
            st.events.append(("hist", a))
            h = [None] * (N + 2)
            for b in range(1, N + 1):
                v = vals.get(b, 1)
                h[b] = p.V(v) if isinstance(v, str) else p.K(v)
            h[0], h[N + 1] = h[N], h[1]
            for b in range(N + 2):
                st.mem[a[0].base] = Entry("store", a[0].off + 4 * b, 4, h[b], st.mem.get(a[0].base))
            return p.V("top") if any(isinstance(v, str) for v in vals.values()) else p.K(max(vals.values()))

        def init(p, st):
            param(p, st, "det", n_scales_per_octave=3)
            for f in ("gx", "gy"):
                set_field(p, st, "det", "NXSIFTDetector", f, Ptr("img_" + f, p.K(0)))
            kstore(p, st, "store", 2, cap)
        try:
            c = Case(m, fn, unroll=True, distinct=True, init=init, opaque={"nx_sift_compute_ori_hist": hist, "nx_sift_compute_descriptor": ev("desc"), "nx_xrealloc": realloc}, max_parts=20000)
        except Unsupported as e:
            rep.undecide(inst, e)
            return
        for st in c.parts:
            sg = lambda e: c.p.sign_under(st.cons, e)
            hv = lambda b: (lambda v: c.V(v) if isinstance(v, str) else c.K(v))(vals.get((b - 1) % N + 1, 1))
            top = c.V("top") if any(isinstance(v, str) for v in vals.values()) else c.K(max(vals.values()))
            hs = [e[1] for e in st.events if e[0] == "hist"]
            sigma = c.V("sigma_c") * app(c.ctx, "pow", c.K(2), c.V("i") / 3)
            if rep.check(len(hs) == 1, rule, inst + " histogram", c.fn.where(), "%d histograms" % len(hs)):
                a = hs[0]
                rep.check(isinstance(a[1], Ptr) and a[1].base == "img_gx" and a[2].base == "img_gy" and a[3].same(c.V("x")) and a[4].same(c.V("y")), rule, inst + " histogram arguments", c.fn.where(), "histogram of %s" % (a[1:5],))
                eq(rep, rule, inst + " histogram sigma", c, st, a[5], sigma)
            ds = [e[1] for e in st.events if e[0] == "desc"]
            ids = []
            cand = []
            for b in range(1, N + 1):
                s = [sg(hv(b) - hv(b - 1)), sg(hv(b) - hv(b + 1))]
                z = [sg(hv(b) - top * k) for k in (Fraction(4, 5), f32(0.8))]
                if all(v == POS for v in s) and any(v == POS for v in z):
                    cand.append((b, True))
                elif any(not (v & POS) for v in s) or any(not (v & POS) for v in z):
                    cand.append((b, False))
                else:
                    cand.append((b, None))
            if any(v is None for _, v in cand):
                rep.violate(rule, inst + " peaks", c.fn.where(), "bin %s is not compared with its neighbours and 0.8 of the peak (when %s)" % ([b for b, v in cand if v is None], guard_text(st)[:300]))
                continue
            peaks = [b for b, v in cand if v]
            nn = get_field(c.p, st, "store", "NXSIFTKeyStore", "n")
            if not rep.check(nn.same(c.K(2 + len(peaks))) and len(ds) == len(peaks), rule, inst + " peaks", c.fn.where(), "peaks at bins %s but %s keypoints are stored" % (peaks, nn - 2)):
                continue
            kp = get_field(c.p, st, "store", "NXSIFTKeyStore", "keys", "ptr")
            dp = get_field(c.p, st, "store", "NXSIFTKeyStore", "desc", "ptr")
            for k, b in enumerate(peaks):
                dd = (hv(b + 1) - hv(b - 1)) / 2
                cc = hv(b - 1) + hv(b + 1) - hv(b) * 2
                w = {"xs": c.V("x"), "ys": c.V("y"), "level": c.V("octave"), "sigma": sigma, "score": c.V("dog_val"), "id": c.K(2 + k)}
                # the store may have been moved while earlier keypoints were already written
                for f, ty in KEY:
                    o, sz = field_off(c.p, "NXKeypoint", f)
                    gt = None
                    bs = [kp.base] + (["heapkeys"] if len(ds) and cap == 6 else [])
                    gt = c.p._load(st, st.mem.get(kp.base), kp.base, c.K(48 * (2 + k) + o), sz, ty)
                    ii = "%s keypoint %d %s" % (inst, k, f)
                    if f in w:
                        eq(rep, rule, ii, c, st, gt, w[f])
                    elif f in ("x", "y"):
                        a = strip_int(c, gt)
                        rep.check(a is not None and a.same(c.V(f) + Fraction(1, 2)), rule, ii, c.fn.where(), "%s is %s" % (f, gt))
                    elif f == "scale":
                        rep.check(isinstance(gt, R) and (gt.same(app(c.ctx, "pow", c.K(2), c.V("octave"))) or gt.same(app(c.ctx, "exp2", c.V("octave")))), rule, ii, c.fn.where(), "scale is %s" % gt)
                    else:
                        want = (c.K(b) - Fraction(1, 2) - dd / cc) * 2 / N - 1
                        pi = Fraction(math.pi)
                        ok = differ(c.ctx, gt, want * pi, st.cons) is not True
                        rep.check(ok, rule, ii, c.fn.where(), "orientation is %s, expected pi*(%s)" % (gt, want.show()[:200]))
                a = ds[k]
                rep.check(a[0].base == "det" and isinstance(a[1], Ptr) and a[1].off.same(c.K(48 * (2 + k))) and isinstance(a[2], Ptr) and a[2].off.same(c.K(DIM * (2 + k))) and (k < len(peaks) - 1 or a[1].base == kp.base and a[2].base == dp.base), rule, "%s keypoint %d descriptor" % (inst, k), c.fn.where(), "descriptor of %s into %s" % (a[1], a[2]))
    go("one peak", [(9, 5), (8, 2), (10, 3)])
    go("first bin", [(1, 5), (36, 2), (2, 3)])
    go("last bin", [(36, 5), (35, 2), (1, 3)])
    go("two peaks", [(5, 5), (20, Fraction(43, 10)), (21, 2)])
    go("low second", [(5, 5), (20, Fraction(39, 10))])
    go("plateau", [(5, 5), (6, 5), (30, Fraction(9, 2))])
    go("symbolic bin", [(17, "h17"), (16, "h16"), (18, "h18")])
    go("symbolic wrap", [(1, "h1"), (36, "h36"), (2, "h2")])
    go("growing store", [(9, 5)], cap=2)


def gimgs(p, st, names, w, h, strides):
    for nm, s in zip(names, strides):
        img(p, st, nm, w, h, stride=s, dtype=F32)


def orihist(rep):
    rule = "orientation"
    fn = "nx_sift_compute_ori_hist"
    m = kernels([(fn, fn, None)], opaque=["atan2f", "expf", "sqrtf"], name="p14o")
    N = 36

    def go(w, h, x, y, sigma, bin_, inside):
        inst = "%s(%dx%d at %s,%s sigma %s, angle bin %d)" % (fn, w, h, x, y, sigma, bin_)
        ang = Fraction(math.pi) * (2 * Fraction(2 * bin_ + 1, 2) / N - 1) if bin_ < N else Fraction(f32(math.pi))
        sx, sy = w + 1, w + 2

        def at(p, i, st, a):
            st.events.append(("atan2", a))
            return p.K(ang)

        def ex(p, i, st, a):
            st.events.append(("exp", a[0]))
            return p.V("w%d" % (num(st, "exp")))

        def sq(p, i, st, a):
            st.events.append(("sqrt", a[0]))
            return p.V("m%d" % (num(st, "sqrt")))
        c0 = Ctx()
        K = lambda v: R.const(c0, tofrac(v))
        n = len(inside)
        try:
            c = Case(m, fn, unroll=True, distinct=True, ctx=c0, argvals={3: K(x), 4: K(y), 5: K(sigma)}, init=lambda p, st: gimgs(p, st, ("gx", "gy"), w, h, (sx, sy)), argnames=None,
                     opaque={"atan2f": at, "expf": ex, "sqrtf": sq}, pre=lambda p: [(sum((p.V("w%d" % (j + 1)) * p.V("m%d" % (j + 1)) for j in range(n)), start=p.K(0)), POS)] if n else [])
        except Unsupported as e:
            rep.undecide(inst, e)
            return
        for st in c.parts:
            es = [e[1] for e in st.events if e[0] == "exp"]
            sqs = [e[1] for e in st.events if e[0] == "sqrt"]
            at_ = [e[1] for e in st.events if e[0] == "atan2"]
            if not rep.check(len(es) == len(sqs) == len(at_) == n, rule, inst + " samples", c.fn.where(), "uses %d gradient samples, expected %d" % (len(sqs), n)):
                continue
            s2 = (Fraction(sigma) * Fraction(3, 2)) ** 2
            for j, (u, v) in enumerate(inside):
                gx = c.p._load(None, None, "pix(gx)", c.K(4 * (sx * v + u)), 4, "float")
                gy = c.p._load(None, None, "pix(gy)", c.K(4 * (sy * v + u)), 4, "float")
                eq(rep, rule, "%s sample %d magnitude" % (inst, j), c, st, sqs[j], gx * gx + gy * gy)
                rep.check(at_[j][0].same(-gy) and at_[j][1].same(gx), rule, "%s sample %d angle" % (inst, j), c.fn.where(), "angle of %s" % (at_[j],))
                want = -((u - Fraction(x)) ** 2 + (v - Fraction(y)) ** 2) / (2 * s2)
                g = es[j]
                rep.check(g.is_const() and abs(g.cval() - want) <= Fraction(1, 10 ** 5) * max(1, abs(want)), rule, "%s sample %d weight" % (inst, j), c.fn.where(), "weight exponent %s, expected %s" % (g, float(want)))
            tot = c.K(0)
            for j in range(n):
                tot = tot + c.V("w%d" % (j + 1)) * c.V("m%d" % (j + 1))
            hh = [Fraction(0)] * N
            hh[min(bin_, N - 1)] = Fraction(1)
            for _ in range(6):
                hh = [(hh[j - 1] + hh[j] + hh[(j + 1) % N]) / 3 for j in range(N)]
            for b in range(N + 2):
                g = c.outat(st, "hist", 4 * b, 4, "float")
                want = tot * hh[(b - 1) % N]
                ok = isinstance(g, R) and (g.same(want) or near2(c, g, want))
                rep.check(ok, rule, "%s bin %d" % (inst, b), c.fn.where(), "bin %d is %s, expected %s" % (b, g.show()[:120] if isinstance(g, R) else g, want.show()[:120]))
            rep.check(isinstance(st.ret, R) and near2(c, st.ret, tot * max(hh)), rule, inst + " peak", c.fn.where(), "peak is %s" % st.ret)

    def inside(w, h, x, y, sigma):
        sg = float(sigma) * 1.5
        r = int(sg * 3)
        xi, yi = int(x + Fraction(1, 2)), int(y + Fraction(1, 2))
        return [(u, v) for v in range(yi - r, yi + r + 1) for u in range(xi - r, xi + r + 1) if 0 < v < h - 2 and 0 < u < w - 2 and (u - x) ** 2 + (v - y) ** 2 <= r * r + Fraction(1, 2)]
    q = Fraction
    for w, h, x, y, s, b in ((4, 4, q(1), q(1), q(1), 17), (4, 4, q(5, 4), q(3, 4), q(1, 2), 0), (4, 4, q(1), q(1), q(1), 36), (4, 4, q(1), q(1), q(1), 35), (5, 4, q(7, 4), q(1), q(1), 9), (4, 5, q(1), q(7, 4), q(1), 30), (9, 8, q(15, 4), q(13, 4), q(1, 4), 20), (9, 8, q(4), q(3), q(1, 4), 5), (3, 4, q(1), q(1), q(1), 4), (12, 11, q(23, 4), q(5), q(1, 2), 12)):
        go(w, h, x, y, s, b, inside(w, h, x, y, s))


def near2(c, a, b, tol=Fraction(1, 10 ** 4)):
    """polynomials with the same monomials and coefficients up to rounding of literal constants"""
    if not (isinstance(a, R) and isinstance(b, R) and a.d.is_const() and b.d.is_const()):
        return False
    da, db = a.d.cval(), b.d.cval()
    ta, tb = a.n.t, b.n.t
    return all(abs(ta.get(k, 0) / da - tb.get(k, 0) / db) <= tol * max(1, abs(tb.get(k, 0) / db)) for k in set(ta) | set(tb))


def descriptor(rep):
    rule = "descriptor"
    fn = "nx_sift_compute_fdescriptor"
    m = kernels([(fn, fn, None)], opaque=["atan2f", "expf", "sqrtf", "cosf", "sinf"], name="p14d")

    def go(w, h, kx, ky, xs, ys, sigma, mag, ori, angs):
        inst = "%s(%dx%d key %s,%s sigma %s ori %s angle %s)" % (fn, w, h, xs, ys, sigma, ori, float(angs[0]))
        sx, sy = w + 1, w + 2
        co, si = {0: (Fraction(1), Fraction(0)), 1: (Fraction(3, 5), Fraction(4, 5)), 2: (Fraction(-4, 5), Fraction(3, 5))}[ori]
        oang = {0: Fraction(0), 1: Fraction(math.atan2(.8, .6)), 2: Fraction(math.atan2(.6, -.8))}[ori]

        def at(p, i, st, a):
            k = num(st, "atan2")
            st.events.append(("atan2", a))
            return p.K(angs[k % len(angs)] + oang if angs[k % len(angs)] == 0 else angs[k % len(angs)])

        def ex(p, i, st, a):
            st.events.append(("exp", a[0]))
            return p.V("w%d" % (num(st, "exp") - 1))

        def sq(p, i, st, a):
            if a[0].is_const():
                return p.K(Fraction(math.sqrt(a[0].cval())))
            st.events.append(("sqrt", a[0]))
            return p.V("m%d" % (num(st, "sqrt") - 1))

        def init(p, st):
            param(p, st, "det", magnification_factor=mag)
            for f in ("gx", "gy"):
                set_field(p, st, "det", "NXSIFTDetector", f, Ptr("img_" + f, p.K(0)))
            gimgs(p, st, ("img_gx", "img_gy"), w, h, (sx, sy))
            for f, v in (("x", kx), ("y", ky), ("xs", xs), ("ys", ys), ("sigma", sigma), ("ori", oang)):
                set_field(p, st, "key", "NXKeypoint", f, p.K(v))
        try:
            c = Case(m, fn, unroll=True, distinct=True, init=init, opaque={"atan2f": at, "expf": ex, "sqrtf": sq, "sqrt": sq, "cosf": lambda p, i, st, a: p.K(co), "sinf": lambda p, i, st, a: p.K(si), "cos": lambda p, i, st, a: p.K(co), "sin": lambda p, i, st, a: p.K(si)})
        except Unsupported as e:
            rep.undecide(inst, e)
            return
        ps = Fraction(sigma) * mag
        R25 = Fraction(5, 2)
        rad = int(float(ps * R25) * math.sqrt(2) + .5)
        smp = []
        for dy in range(-rad, rad + 1):
            for dx in range(-rad, rad + 1):
                u, v = dx + kx, dy + ky
                if not (0 <= u < w and 0 <= v < h):
                    continue
                py = (co * dy + si * dx - (Fraction(ys) - ky)) / ps
                qx = (-si * dy + co * dx - (Fraction(xs) - kx)) / ps
                if abs(py) < R25 and abs(qx) < R25:
                    smp.append((u, v, qx, py))
        for st in c.parts:
            es = [e[1] for e in st.events if e[0] == "exp"]
            sqs = [e[1] for e in st.events if e[0] == "sqrt"]
            at_ = [e[1] for e in st.events if e[0] == "atan2"]
            if not rep.check(len(es) == len(sqs) == len(at_) == len(smp), rule, inst + " samples", c.fn.where(), "uses %d samples, expected %d" % (len(sqs), len(smp))):
                continue
            want = [c.K(0)] * DIM
            for j, (u, v, qx, qy) in enumerate(smp):
                gx = c.p._load(None, None, "pix(img_gx)", c.K(4 * (sx * v + u)), 4, "float")
                gy = c.p._load(None, None, "pix(img_gy)", c.K(4 * (sy * v + u)), 4, "float")
                eq(rep, rule, "%s sample %d magnitude" % (inst, j), c, st, sqs[j], gx * gx + gy * gy)
                rep.check(at_[j][0].same(-gy) and at_[j][1].same(gx), rule, "%s sample %d angle" % (inst, j), c.fn.where(), "angle of %s" % (at_[j],))
                wexp = -(qx * qx + qy * qy) / 8
                g = es[j]
                rep.check(g.is_const() and abs(g.cval() - wexp) < Fraction(1, 10 ** 4), rule, "%s sample %d weight" % (inst, j), c.fn.where(), "weight exponent %s, expected %s" % (g, float(wexp)))
                an = angs[j % len(angs)]
                o = Fraction(0) if an == 0 else an - oang
                tp = 2 * Fraction(math.pi)
                while o > tp:
                    o -= tp
                while o < 0:
                    o += tp
                hb = 8 * o / tp
                wt = c.V("w%d" % j) * c.V("m%d" % j)
                px, py = qx + Fraction(3, 2), qy + Fraction(3, 2)
                for iy in (math.floor(py), math.floor(py) + 1):
                    for ix in (math.floor(px), math.floor(px) + 1):
                        if not (0 <= ix < 4 and 0 <= iy < 4):
                            continue
                        for ih in (math.floor(hb), math.floor(hb) + 1):
                            k = (1 - abs(px - ix)) * (1 - abs(py - iy)) * (1 - abs(hb - ih))
                            want[(iy * 4 + ix) * 8 + ih % 8] = want[(iy * 4 + ix) * 8 + ih % 8] + wt * k
            bad = 0
            for b in range(DIM):
                g = c.outat(st, "desc", 4 * b, 4, "float")
                ok = near2(c, g, want[b])
                rep.check(ok, rule, "%s element %d" % (inst, b), c.fn.where(), "element %d is %s, expected %s" % (b, g.show()[:160] if isinstance(g, R) else g, want[b].show()[:160]))
            wr = [o for o, s in c.written(st, "desc")]
            rep.check(all(isinstance(o, int) and 0 <= o < 4 * DIM for o in wr), rule, inst + " writes", c.fn.where(), "writes outside the descriptor at %s" % [o for o in wr if not (isinstance(o, int) and 0 <= o < 4 * DIM)])
    q = Fraction
    A = [q(1, 3), q(-2), q(5, 2), q(-1, 8), q(3)]
    go(1, 1, 0, 0, 0, 0, q(1, 2), 3, 0, [q(0)])
    go(2, 2, 1, 0, q(5, 4), q(1, 4), q(1, 2), 3, 0, A)
    go(3, 2, 1, 1, q(3, 4), q(5, 4), q(1, 3), 3, 1, A)
    go(4, 4, 2, 1, 2, 1, q(1, 3), 1, 2, A[::-1])
    go(5, 5, 2, 2, q(9, 4), q(7, 4), q(1, 3), 2, 1, A)
    go(7, 6, 3, 3, q(25, 8), q(23, 8), q(1, 2), 1, 0, A)


def syms(e):
    return {v for t in (e.n.t, e.d.t) for mono in t for v, _ in mono}


def quantise(rep):
    rule = "descriptor"
    fn = "nx_sift_compute_descriptor"
    m = kernels([(fn, fn, None)], opaque=["nx_sift_compute_fdescriptor"], name="p14q")
    for live in ((0, 127), (5, 64, 100)):
        inst = "%s(elements %s)" % (fn, live)

        def fd(p, i, st, a):
            st.events.append(("fd", a))
            st.mem[a[2].base] = Entry("zero", a[2].off, 4 * DIM, None, st.mem.get(a[2].base))
            for k in live:
                st.mem[a[2].base] = Entry("store", a[2].off + 4 * k, 4, p.V("d%d" % k), st.mem.get(a[2].base))
        try:
            c = Case(m, fn, unroll=True, distinct=True, opaque={"nx_sift_compute_fdescriptor": fd}, pre=lambda p: [(p.V("d%d" % k), POS) for k in live], max_parts=20000)
        except Unsupported as e:
            rep.undecide(inst, e)
            continue
        for st in c.parts:
            f = [e[1] for e in st.events if e[0] == "fd"]
            rep.check(len(f) == 1 and f[0][0].base == "det" and f[0][1].base == "key", rule, inst + " source", c.fn.where(), "descriptor of %s" % f)
            T = Fraction(1, 5)
            sg = lambda e: c.p.sign_under(st.cons, e)
            d = [c.V("d%d" % k) for k in live]
            n = fsqrt(c.ctx, sum((v * v for v in d), start=c.K(0)))
            u = [v / n for v in d]
            if any(mk == ZERO and len(syms(e)) == 1 and (c.ctx.appinfo.get(next(iter(syms(e)))) or ("",))[0] == "sqrt" for e, mk in st.cons):
                continue        # a zero norm: impossible for positive elements
            cl = []
            for v in u:
                s = sg(v - T)
                cl.append(c.K(T) if s == POS else v if not (s & POS) else None)
            if None in cl:
                rep.undecide(inst, "the clamp at 0.2 is compared in another form")
                continue
            n2 = fsqrt(c.ctx, sum((v * v for v in cl), start=c.K(0)))
            for k, v in zip(live, cl):
                g = c.outat(st, "desc", k, 1, "i8")
                w = v / n2 * 512
                a = strip_int(c, g)
                if a is not None:
                    ok = differ(c.ctx, a, w, st.cons) is not True
                    # saturated: on this path the value is known to fit a byte
                    ok2 = not (sg(g - 255) & POS) or not (sg(w - 255) & POS) or not (sg(w - 256) & POS) or not (sg(g - 256) & (POS | ZERO))
                elif g.is_const():
                    if g.cval() % 256 == 255:
                        ok, ok2 = True, True
                        # only on the path where the scaled value exceeds 255
                        ints = [s for e, mk in st.cons for s in syms(e) if c.ctx.appinfo.get(s) and c.ctx.appinfo[s][0] == "int"]
                        ok = any(differ(c.ctx, c.ctx.appinfo[s][1][0], w, st.cons) is not True and not (sg(R(c.ctx, Poly.var(s)) - 255) & NEG) for s in ints) or w.is_const() and w.cval() >= 255
                    else:
                        ok, ok2 = w.is_const() and g.cval() % 256 == int(w.cval()), True
                else:
                    ok = False
                rep.check(ok and ok2, rule, "%s element %d" % (inst, k), c.fn.where(), "element is %s, expected min(255, int(%s))" % (g.show()[:200], w.show()[:200]))
            z = [k for k in range(DIM) if k not in live and not c.outat(st, "desc", k, 1, "i8").same(c.K(0))]
            rep.check(not z, rule, inst + " rest", c.fn.where(), "elements %s become non-zero" % z[:5])


def octaves(rep):
    rule = "scale space"
    OPQ = ["nx_image_copy", "nx_image_smooth", "nx_image_subtract", "nx_image_deriv_x", "nx_image_deriv_y", "nx_sift_process_dog", "pow"]
    m = kernels([(f, f, None) for f in ("nx_sift_detector_prepare_octave", "nx_sift_detector_process_octave")], opaque=OPQ, name="p14v")
    for ns in (1, 2, 3, 4):
        def init(p, st):
            param(p, st, "det", n_scales_per_octave=ns, kernel_truncation_factor=p.V("trunc"))
            set_field(p, st, "det", "NXSIFTDetector", "levels", Ptr("heaplev", p.K(0)))
            set_field(p, st, "det", "NXSIFTDetector", "dogs", Ptr("heapdog", p.K(0)))
            for f in ("gx", "gy"):
                set_field(p, st, "det", "NXSIFTDetector", f, Ptr("heap" + f, p.K(0)))
            for k in range(ns + 3):
                ptr_at(p, st, "heaplev", 8 * k, Ptr("heapL%d" % k, p.K(0)))
            for k in range(ns + 2):
                ptr_at(p, st, "heapdog", 8 * k, Ptr("heapD%d" % k, p.K(0)))
        inst = "nx_sift_detector_prepare_octave(%d scales)" % ns
        try:
            mult = []

            def pw(p, i, st, a):
                mult.append((a[0], a[1]))
                if not (a[0].is_const() and a[1].is_const()):
                    raise Unsupported("scale multiplier %s^%s" % (a[0], a[1]))
                return p.V("mul") if abs(a[1].cval() - Fraction(1, ns)) < Fraction(1, 10 ** 6) and a[0].cval() == 2 else app(p.ctx, "pow", *a)
            H = {"nx_image_copy": ev("copy"), "nx_image_smooth": ev("smooth"), "nx_image_subtract": ev("sub"), "pow": pw, "exp2": lambda p, i, st, a: pw(p, i, st, [p.K(2), a[0]]), "powf": pw}
            c = Case(m, "nx_sift_detector_prepare_octave", unroll=True, distinct=True, init=init, opaque=H)
            one = c.K(2) if ns == 1 else None
            for st in c.parts:
                mul = c.V("mul")
                content = {"heapL0": [c.V("sigma_c") ** 2, 0]}      # squared blur of each level
                ok = True
                for e in st.events:
                    if e[0] == "copy":
                        s = content.get(e[1][1].base)
                        if s is None:
                            ok = False
                            break
                        content[e[1][0].base] = list(s)
                    elif e[0] == "smooth":
                        d_, s_, gx, gy, tr, fb = e[1]
                        s = content.get(s_.base)
                        if s is None or not gx.same(gy) or not tr.same(c.V("trunc")):
                            ok = False
                            break
                        content[d_.base] = [s[0] + gx * gx, s[1] + 1]
                rep.check(ok, rule, inst + " order", c.fn.where(), "a level is used before it is computed, or smoothed differently in x and y")
                if not ok:
                    continue
                for k in range(ns + 3):
                    b = content.get("heapL%d" % k)
                    w = (c.V("sigma_c") * mul ** k) ** 2
                    if rep.check(b is not None and (b[0].same(w) or near2(c, b[0], w)), rule, "%s level %d" % (inst, k), c.fn.where(), "level %d has squared blur %s, expected %s" % (k, b[0] if b else None, w.show())):
                        pass
                sb = [e[1] for e in st.events if e[0] == "sub"]
                last = max([j for j, e in enumerate(st.events) if e[0] == "smooth"], default=-1)
                got = [(a[0].base, a[1].base, a[2].base) for a in sb]
                want = [("heapD%d" % k, "heapL%d" % k, "heapL%d" % (k + 1)) for k in range(ns + 2)]
                rep.check(sorted(got) == sorted(want), rule, inst + " differences", c.fn.where(), "differences %s" % got)
                # each difference of finished levels
                for j, e in enumerate(st.events):
                    if e[0] == "sub":
                        late = [q for q, f in enumerate(st.events) if q > j and f[0] in ("smooth", "copy") and f[1][0].base in (e[1][1].base, e[1][2].base)]
                        rep.check(not late, rule, inst + " difference of %s" % e[1][1].base, c.fn.where(), "difference taken before the level is finished")
        except Unsupported as e:
            rep.undecide(inst, e)
        inst = "nx_sift_detector_process_octave(%d scales)" % ns
        try:
            c = Case(m, "nx_sift_detector_process_octave", unroll=True, distinct=True, init=init, opaque={"nx_image_deriv_x": ev("dx"), "nx_image_deriv_y": ev("dy"), "nx_sift_process_dog": ev("dog")})
            for st in c.parts:
                cur = {"dx": None, "dy": None}
                seen = []
                ok = True
                for e in st.events:
                    if e[0] in cur:
                        ok &= e[1][0].base == ("heapgx" if e[0] == "dx" else "heapgy")
                        cur[e[0]] = e[1][1].base
                    elif e[0] == "dog":
                        a = e[1]
                        ok &= a[0].base == "det" and a[1].base == "store" and a[2].same(c.V("octave")) and a[3].same(c.V("sigma_c")) and a[4].is_const()
                        seen.append((int(a[4].cval()) if a[4].is_const() else None, cur["dx"], cur["dy"]))
                want = [(k, "heapL%d" % (k - 1), "heapL%d" % (k - 1)) for k in range(1, ns + 1)]
                rep.check(ok and seen == want, rule, inst, c.fn.where(), "searches %s, expected %s" % (seen, want))
        except Unsupported as e:
            rep.undecide(inst, e)


def driver(rep):
    rule = "scale space"
    fn = "nx_sift_detector_compute"
    OPQ = ["nx_image_alloc", "nx_image_free", "nx_image_upsample", "nx_image_resize", "nx_image_convert_dtype", "nx_image_smooth", "nx_image_downsample", "nx_sift_detector_prepare_octave", "nx_sift_detector_process_octave"]
    m = kernels([(fn, fn, None)], opaque=OPQ, name="p14c")
    for dbl in (0, 1):
        for w, h, B, ns in ((40, 30, 5, 3), (13, 13, 5, 2), (12, 40, 5, 3), (30, 12, 5, 3), (100, 26, 2, 1)):
            for sig in ((Fraction(8, 5), Fraction(1, 4), 1) if (w, h) == (40, 30) else (Fraction(8, 5),)):
                inst = "%s(%dx%d, border %d, %d scales%s, sigma0 %s)" % (fn, w, h, B, ns, ", doubled" if dbl else "", sig)

                def size(p, st, b, ww, hh, dt=F32):
                    img(p, st, b, ww, hh, dtype=dt)

                def up(p, i, st, a):
                    st.events.append(("up", a))
                    size(p, st, a[0].base, 2 * w, 2 * h)

                def rs(p, i, st, a):
                    st.events.append(("resize", a))
                    size(p, st, a[0].base, a[1], a[2])

                def down(p, i, st, a):
                    st.events.append(("down", a))
                    g = lambda f: get_field(p, st, a[0].base, "NXImage", f)
                    ww, hh = g("width"), g("height")
                    if not ww.is_const():
                        raise Unsupported("size")
                    size(p, st, a[0].base, int(ww.cval()) // 2, int(hh.cval()) // 2)

                def proc(p, i, st, a):
                    k = num(st, "process")
                    st.events.append(("process", a))
                    b = a[1].base
                    for f, v in (("n", p.K(3 * (k + 1))), ("cap", p.K(100 + k)), ("keys", Ptr("heapK%d" % k, p.K(0))), ("desc", Ptr("heapE%d" % k, p.K(0)))):
                        off, sz = field_off(p, "NXSIFTKeyStore", f)
                        st.mem[b] = Entry("store", a[1].off + off, sz, v, st.mem.get(b))
                H = {"nx_image_alloc": lambda p, i, st, a: Ptr("heapdbl", p.K(0)), "nx_image_free": ev("free"), "nx_image_upsample": up, "nx_image_resize": rs, "nx_image_convert_dtype": ev("convert"), "nx_image_smooth": ev("smooth"), "nx_image_downsample": down,
                     "nx_sift_detector_prepare_octave": ev("prepare"), "nx_sift_detector_process_octave": proc}

                def init(p, st):
                    param(p, st, "det", n_scales_per_octave=ns, kernel_truncation_factor=p.V("trunc"), border_distance=B, sigma0=sig, double_image=dbl)
                    set_field(p, st, "det", "NXSIFTDetector", "levels", Ptr("heaplev", p.K(0)))
                    for k in range(ns + 3):
                        ptr_at(p, st, "heaplev", 8 * k, Ptr("heapL%d" % k, p.K(0)))
                    size(p, st, "image", w, h, 0)
                    ptr_at(p, st, "keys", 0, Ptr("heapK", p.K(0)))
                    ptr_at(p, st, "desc", 0, Ptr("heapE", p.K(0)))
                    st.mem["max_n_keys"] = Entry("store", p.K(0), 4, p.K(50), None)
                try:
                    c = Case(m, fn, unroll=True, distinct=True, init=init, opaque=H)
                except Unsupported as e:
                    rep.undecide(inst, e)
                    continue
                for st in c.parts:
                    E = lambda n: [e[1] for e in st.events if e[0] == n]
                    W, Hh = (2 * w, 2 * h) if dbl else (w, h)
                    src = "heapdbl" if dbl else "image"
                    r, cv = E("resize"), E("convert")
                    rep.check(len(r) == 1 and r[0][0].base == "heapL0" and r[0][1].same(c.K(W)) and r[0][2].same(c.K(Hh)) and r[0][5].same(c.K(F32)) and len(cv) == 1 and cv[0][0].base == "heapL0" and cv[0][1].base == src, rule, inst + " base level", c.fn.where(), "base level resize %s, conversion %s" % (r, cv))
                    if dbl:
                        u = E("up")
                        rep.check(len(u) == 1 and u[0][1].base == "image" and u[0][0].base == "heapdbl", rule, inst + " doubling", c.fn.where(), "upsampling %s" % u)
                    rep.check(any(a[0].base == "heapdbl" for a in E("free")), rule, inst + " releases", c.fn.where(), "temporary image is not released")
                    s0 = Fraction(1) if dbl else Fraction(1, 2)
                    fs = Fraction(f32(sig)) if sig.__class__ is float else Fraction(sig)
                    sm = E("smooth")
                    sc = s0
                    if fs > s0:
                        ok = len(sm) == 1 and sm[0][0].base == "heapL0" and sm[0][1].base == "heapL0" and sm[0][2].same(sm[0][3]) and near2(c, sm[0][2] * sm[0][2], c.K(fs * fs - s0 * s0)) and sm[0][4].same(c.V("trunc"))
                        rep.check(ok, rule, inst + " initial blur", c.fn.where(), "initial smoothing %s" % [(str(a[2]), str(a[3])) for a in sm])
                        sc = fs
                    else:
                        rep.check(not sm, rule, inst + " initial blur", c.fn.where(), "smooths an image that is blurred enough")
                    MIN = 2 * B + 2
                    n = 0
                    while W > MIN and Hh > MIN:
                        n += 1
                        W, Hh = W // 2, Hh // 2
                    pr, pc, dn = E("prepare"), E("process"), E("down")
                    if rep.check(len(pr) == len(pc) == n and len(dn) >= max(0, n - 1), rule, inst + " octaves", c.fn.where(), "%d octaves prepared, %d searched, %d downsampled; expected %d" % (len(pr), len(pc), len(dn), n)):
                        seq = [e[0] for e in st.events if e[0] in ("prepare", "process", "down")]
                        rep.check([s for s in seq if s != "down"] == ["prepare", "process"] * n and all(seq[3 * k:3 * k + 3] == ["prepare", "process", "down"] for k in range(n - 1)), rule, inst + " order", c.fn.where(), "order %s" % seq)
                        for k in range(n):
                            rep.check(pr[k][0].base == "det" and near2(c, pr[k][1], c.K(sc)) and pc[k][0].base == "det" and pc[k][2].same(c.K(k - dbl)) and near2(c, pc[k][3], c.K(sc)), rule, "%s octave %d" % (inst, k), c.fn.where(), "octave %s, sigma %s/%s" % (pc[k][2], pr[k][1], pc[k][3]))
                        for k in range(n - 1):
                            rep.check(dn[k][0].base == "heapL0" and dn[k][1].base == "heapL%d" % ns, rule, "%s next octave %d" % (inst, k), c.fn.where(), "next octave from %s" % dn[k][1])
                    got = (st.ret, c.outat(st, "max_n_keys", 0, 4, "i32"), c.outat(st, "keys", 0, 8, "ptr"), c.outat(st, "desc", 0, 8, "ptr"))
                    k = len(pc) - 1
                    want = (c.K(3 * (k + 1)), c.K(100 + k), "heapK%d" % k, "heapE%d" % k) if n else (c.K(0), c.K(50), "heapK", "heapE")
                    rep.check(got[0].same(want[0]) and got[1].same(want[1]) and got[2].base == want[2] and got[3].base == want[3], rule, inst + " results", c.fn.where(), "returns %s, capacity %s, arrays %s %s" % got)


def matching(rep):
    rule = "matching"
    fn = "nx_sift_match_brute_force"
    m = kernels([("%s_%d_%d" % (fn, n, np), fn, {0: n, 3: np}) for n in (0, 1, 2) for np in (0, 1, 2, 3)], opaque=["nx_ucvec_dist_sq", "nx_point_match_2d_from_keypoints"], name="p14m")
    IM = 2 ** 31 - 1
    for n in (0, 1, 2):
        for np in (0, 1, 2, 3):
            if n == 2 and np == 3:
                continue
            for ratio in (1, 0, 2):
                # ratio 1: threshold t in (0,1); 0: t <= 0; 2: t >= 1
                inst = "%s(%d, %d, %s)" % (fn, n, np, ("no ratio", "ratio", "ratio above one")[ratio])

                def dist(p, i, st, a):
                    ok = a[0].same(p.K(DIM)) and a[1].base == "desc" and a[2].base == "descp" and a[1].off.is_const() and a[2].off.is_const() and a[1].off.cval() % DIM == 0 and a[2].off.cval() % DIM == 0
                    if not ok:
                        st.events.append(("baddist", a))
                        return p.V("bad")
                    return p.V("d_%d_%d" % (a[1].off.cval() // DIM, a[2].off.cval() // DIM))

                def pm(p, i, st, a):
                    st.events.append(("match", a))
                c0 = Ctx()
                try:
                    c = Case(m, "%s_%d_%d" % (fn, n, np), unroll=True, distinct=True, ctx=c0, opaque={"nx_ucvec_dist_sq": dist, "nx_point_match_2d_from_keypoints": pm}, max_parts=60000,
                             pre=lambda p: [(p.V("d_%d_%d" % (i, j)), POS | ZERO) for i in range(n) for j in range(np)] + [(p.K(IM) - p.V("d_%d_%d" % (i, j)), POS) for i in range(n) for j in range(np)] +
                             ([(p.V("dist_ratio_thr"), POS), (p.K(1) - p.V("dist_ratio_thr"), POS)] if ratio == 1 else [(p.V("dist_ratio_thr"), NEG | ZERO)] if ratio == 0 else [(p.V("dist_ratio_thr") - 1, POS | ZERO)]))
                except Unsupported as e:
                    rep.undecide(inst, e)
                    continue
                for st in c.parts:
                    sg = lambda e: c.p.sign_under(st.cons, e)
                    rep.check(not [e for e in st.events if e[0] == "baddist"], rule, inst + " descriptors", c.fn.where(), "compares other data than two descriptors")
                    ms = [e[1] for e in st.events if e[0] == "match"]
                    d = lambda i, j: c.V("d_%d_%d" % (i, j))
                    k = 0
                    thr2 = c.V("dist_ratio_thr") ** 2
                    good = True
                    for i in range(n):
                        if not np:
                            break
                        nn = [j for j in range(np) if all(not (sg(d(i, j) - d(i, q)) & POS) for q in range(np))]
                        st_ = [[sg(d(i, a) - d(i, b)) for b in range(np)] for a in range(np)]
                        if any(not (st_[a][b] & NEG) and not (st_[b][q] & NEG) and st_[q][a] == POS for a in range(np) for b in range(np) for q in range(np)):
                            good = False      # cyclic order: no such distances
                            break
                        if not nn:
                            # an order implied by transitivity
                            ge = [[not (sg(d(i, a) - d(i, b)) & NEG) for b in range(np)] for a in range(np)]
                            for q in range(np):
                                for a in range(np):
                                    for b in range(np):
                                        ge[a][b] = ge[a][b] or ge[a][q] and ge[q][b]
                            nn = [j for j in range(np) if all(ge[q][j] for q in range(np))]
                        if not nn:
                            rep.violate(rule, inst + " nearest", c.fn.where(), "the nearest descriptor is not determined (when %s)" % guard_text(st)[:300])
                            good = False
                            break
                        acc = True
                        if ratio == 1:
                            rest = lambda j: [q for q in range(np) if q != j]
                            j = nn[0]
                            if np == 1:
                                acc = None
                            else:
                                # accepted exactly when the nearest is below thr^2 times every other distance
                                s = [sg(d(i, j) - thr2 * d(i, q)) for q in rest(j)]
                                acc = True if all(v == NEG for v in s) else False if any(not (v & NEG) for v in s) else None
                            if acc is None:
                                # decided through the second nearest only
                                took = k < len(ms) and ms[k][ARG[0]].off.same(c.K(48 * i)) if k < len(ms) else False
                                if np == 1:
                                    acc = took
                                else:
                                    second = [q for q in rest(j) if all(not (sg(d(i, q) - d(i, r)) & POS) for r in rest(j))]
                                    s = [sg(d(i, j) - thr2 * d(i, q)) for q in second]
                                    acc = True if any(v == NEG for v in s) else False if any(not (v & NEG) for v in s) else None
                                    if acc is None:
                                        rep.violate(rule, inst + " ratio", c.fn.where(), "the distance ratio test does not compare with the second nearest (when %s)" % guard_text(st)[:300])
                                        good = False
                                        break
                        if not acc:
                            continue
                        if not rep.check(k < len(ms), rule, inst + " matches", c.fn.where(), "keypoint %d has no match" % i):
                            good = False
                            break
                        a = ms[k]
                        rep.check(isinstance(a[0], Ptr) and a[0].base == "corr" and a[0].off.is_const() and a[0].off.cval() % k_size(c) == 0 and a[0].off.cval() // k_size(c) == k, rule, inst + " slot", c.fn.where(), "match %d stored at %s" % (k, a[0])) if a[0].base == "corr" else slot(rep, rule, inst, c, st, k)
                        kk, kp = a[ARG[0]], a[ARG[1]]
                        rep.check(kk.base == "keys" and kk.off.same(c.K(48 * i)) and kp.base == "keyps" and kp.off.is_const() and kp.off.cval() // 48 in nn, rule, inst + " pair", c.fn.where(), "keypoint %d is matched to %s, nearest is %s (when %s)" % (i, kp, nn, guard_text(st)[:200]))
                        if kp.off.is_const() and kp.off.cval() // 48 in nn:
                            eq(rep, rule, inst + " cost", c, st, a[ARG[3]], d(i, int(kp.off.cval() // 48)))
                        rep.check(abs(a[ARG[2]].cval() - Fraction(3, 10)) < Fraction(1, 1000) if a[ARG[2]].is_const() else False, rule, inst + " deviation", c.fn.where(), "deviation %s" % a[ARG[2]])
                        k += 1
                    if good:
                        rep.check(len(ms) == k and st.ret.same(c.K(k)), rule, inst + " count", c.fn.where(), "returns %s with %d matches, expected %d" % (st.ret, len(ms), k))


ARG = (1, 2, 3, 4)


def k_size(c):
    d = c.p.mod.di[("struct", "NXPointMatch2D")]
    return d["size"] if "size" in d else max(e[1] + e[2] for e in d["els"])


def slot(rep, rule, inst, c, st, k):
    """the match record is copied from a temporary into element k"""
    sz = k_size(c)
    offs = [o for o, s in c.written(st, "corr")]
    rep.check(any(o == k * sz for o in offs), rule, inst + " slot", c.fn.where(), "match %d is not stored in element %d (writes at %s)" % (k, k, offs))


def fio(rd):
    """handlers of a file in exclusive use: recorded transfers"""
    def xopen(p, i, st, a):
        st.events.append(("open", a))
        return Ptr("heapfile", p.K(0))

    def tr(nm):
        def h(p, i, st, a):
            st.events.append((nm, a))
            if nm == "read" and isinstance(a[0], Ptr) and a[1].same(p.K(4)) and a[2].same(p.K(1)):
                k = num(st, "read") - 1
                st.mem[a[0].base] = Entry("store", a[0].off, 4, p.K(rd[k]) if isinstance(rd[k], int) else p.V(rd[k]), st.mem.get(a[0].base))
        return h
    return {"nx_xfopen": xopen, "nx_xfread": tr("read"), "nx_xfwrite": tr("write"), "nx_fclose": ev("close"), "nx_xfclose": ev("close"), "nx_ensure_dir": ev("dir")}


def cache(rep):
    rule = "cache"
    fn = "nx_sift_detector_compute_with_cache"
    OPQ = ["nx_xfopen", "nx_xfread", "nx_xfwrite", "nx_fclose", "nx_xfclose", "nx_ensure_dir", "nx_sha256_multi", "nx_hash_to_str", "nx_fstr", "nx_check_file", "nx_sift_detector_compute", "nx_xrealloc", "nx_xmalloc", "nx_xcalloc", "nx_free", "nx_xmalloc0"]
    m = kernels([(fn, fn, None)], opaque=OPQ, name="p14h")
    for dt in (0, 1):
        for hit in (0, 1):
            for cap in (5, 40):
                W, H, S = 6, 3, 8
                inst = "%s(%s, %s, capacity %d)" % (fn, "float" if dt else "byte", "cached" if hit else "not cached", cap)
                NK = 7

                def sha(p, i, st, a):
                    if not a[1].is_const():
                        raise Unsupported("message count")
                    msg = []
                    for k in range(int(a[1].cval())):
                        q = p._load(st, st.mem.get(a[2].base), a[2].base, a[2].off + 8 * k, 8, "ptr")
                        l = p._load(st, st.mem.get(a[3].base), a[3].base, a[3].off + 8 * k, 8, "i64")
                        content = None
                        if isinstance(q, Ptr) and q.base.startswith("alloca") and l.is_const():
                            content = [p._load(st, st.mem.get(q.base), q.base, q.off + 4 * j, 4, "i32") for j in range(int(l.cval()) // 4)]
                        msg.append((q, l, content))
                    st.events.append(("sha", a[0], msg))

                def comp(p, i, st, a):
                    st.events.append(("compute", a))
                    ptr_at(p, st, a[3].base, 0, Ptr("heapCK", p.K(0)))
                    ptr_at(p, st, a[4].base, 0, Ptr("heapCD", p.K(0)))
                    st.mem[a[2].base] = Entry("store", p.K(0), 4, p.K(64), st.mem.get(a[2].base))
                    return p.K(NK)
                al = lambda p, i, st, a: (st.events.append(("malloc", a)), Ptr("heapm%d" % len(st.events), p.K(0)))[1]
                H = dict(fio([NK]), nx_sha256_multi=sha, nx_hash_to_str=ev("hex", lambda p, st, a: Ptr("heaphex", p.K(0))), nx_fstr=ev("path", lambda p, st, a: Ptr("heappath", p.K(0))), nx_check_file=ev("exists", lambda p, st, a: p.K(hit)),
                         nx_sift_detector_compute=comp, nx_xrealloc=realloc, nx_xmalloc=al, nx_xcalloc=al, nx_xmalloc0=al, nx_free=ev("free"))

                def init(p, st):
                    img(p, st, "image", W, 3, stride=S, dtype=dt)
                    ptr_at(p, st, "keys", 0, Ptr("heapK", p.K(0)))
                    ptr_at(p, st, "desc", 0, Ptr("heapE", p.K(0)))
                    st.mem["max_n_keys"] = Entry("store", p.K(0), 4, p.K(cap), None)
                try:
                    c = Case(m, fn, unroll=True, distinct=True, init=init, opaque=H)
                except Unsupported as e:
                    rep.undecide(inst, e)
                    continue
                for st in c.parts:
                    E = lambda n: [e[1] for e in st.events if e[0] == n]
                    sh = [e for e in st.events if e[0] == "sha"]
                    if not rep.check(len(sh) == 1, rule, inst + " key", c.fn.where(), "%d hashes" % len(sh)):
                        continue
                    es = 4 if dt else 1
                    msg = sh[0][2]
                    rows = {(int(q.off.cval()), int(l.cval())) for q, l, _ in msg if isinstance(q, Ptr) and q.base == "pix(image)" and q.off.is_const() and l.is_const()}
                    for y in range(3):
                        rep.check((y * S * es, W * es) in rows, rule, "%s key covers row %d" % (inst, y), c.fn.where(), "row %d (%d bytes at %d) is not part of the cache key %s" % (y, W * es, y * S * es, sorted(rows)))
                    psz = c.p.mod.di[("struct", "NXSIFTDetectorParams")].get("size") or 32
                    po = field_off(c.p, "NXSIFTDetector", "param")[0]
                    rep.check(any(isinstance(q, Ptr) and q.base == "detector" and q.off.same(c.K(po)) and l.same(c.K(psz)) for q, l, _ in msg), rule, inst + " key covers parameters", c.fn.where(), "the detector parameters are not part of the cache key")
                    con = [v for _, _, cc in msg for v in (cc or [])]
                    for nm, v in (("width", W), ("height", 3)):
                        rep.check(any(isinstance(x, R) and x.same(c.K(v)) for x in con), rule, "%s key covers %s" % (inst, nm), c.fn.where(), "the image %s is not part of the cache key" % nm)
                    hx, pa, ex = E("hex"), E("path"), E("exists")
                    rep.check(len(hx) == 1 and hx[0][0].same(c.K(32)) and hx[0][1].base == sh[0][1].base and len(pa) == 1 and [getattr(x, "base", None) for x in pa[0][1:3]][1] == "heaphex", rule, inst + " file name", c.fn.where(), "file name from %s" % (pa,))
                    op = E("open")
                    ok = len(op) == 1 and isinstance(op[0][0], Ptr) and op[0][0].base == "heappath" and len(ex) == 1 and ex[0][0].base == "heappath"
                    rep.check(ok, rule, inst + " file", c.fn.where(), "opens %s" % op)
                    rep.check(len(E("close")) == 1, rule, inst + " close", c.fn.where(), "%d closes" % len(E("close")))
                    tr = [(e[0], e[1]) for e in st.events if e[0] in ("read", "write")]
                    kk, dd = c.outat(st, "keys", 0, 8, "ptr"), c.outat(st, "desc", 0, 8, "ptr")
                    mx = c.outat(st, "max_n_keys", 0, 4, "i32")
                    want = "read" if hit else "write"
                    ok = len(tr) == 3 and all(t[0] == want for t in tr)
                    if rep.check(ok, rule, inst + " transfers", c.fn.where(), "transfers %s" % [t[0] for t in tr]):
                        tot = lambda a: a[1] * a[2]
                        rep.check(tot(tr[0][1]).same(c.K(4)) and tot(tr[1][1]).same(c.K(48 * NK)) and tot(tr[2][1]).same(c.K(DIM * NK)), rule, inst + " sizes", c.fn.where(), "transfers %s bytes" % [str(tot(t[1])) for t in tr])
                        rep.check(tr[1][1][0].base == kk.base and tr[1][1][0].off.same(c.K(0)) and tr[2][1][0].base == dd.base and tr[2][1][0].off.same(c.K(0)), rule, inst + " arrays", c.fn.where(), "keypoints at %s, descriptors at %s" % (tr[1][1][0], tr[2][1][0]))
                        if not hit:
                            v = c.p._load(st, st.mem.get(tr[0][1][0].base), tr[0][1][0].base, tr[0][1][0].off, 4, "i32")
                            eq(rep, rule, inst + " stored count", c, st, v, NK)
                    rep.check(st.ret.same(c.K(NK)), rule, inst + " count", c.fn.where(), "returns %s" % st.ret)
                    cp = E("compute")
                    if hit:
                        rep.check(not cp, rule, inst + " reuse", c.fn.where(), "computes although the result is cached")
                        re = E("realloc")
                        if cap < NK:
                            sz = {a[0].base: a[1] for a in re}
                            rep.check("heapK" in sz and sz["heapK"].same(c.K(48 * NK)) and "heapE" in sz and sz["heapE"].same(c.K(DIM * NK)) and kk.base.startswith("heapre_heapK") and dd.base.startswith("heapre_heapE") and mx.same(c.K(NK)), rule, inst + " growth", c.fn.where(), "arrays grow to %s, capacity %s" % ({k: str(v) for k, v in sz.items()}, mx))
                        else:
                            rep.check(kk.base == "heapK" and dd.base == "heapE" and mx.same(c.K(cap)), rule, inst + " growth", c.fn.where(), "capacity %s" % mx)
                    else:
                        rep.check(len(cp) == 1 and cp[0][0].base == "detector" and cp[0][1].base == "image" and [x.base for x in cp[0][2:5]] == ["max_n_keys", "keys", "desc"], rule, inst + " computes", c.fn.where(), "computes %s" % cp)
                        od = [j for j, e in enumerate(st.events) if e[0] in ("dir", "open")]
                        rep.check(len(od) == 2 and st.events[od[0]][0] == "dir", rule, inst + " directory", c.fn.where(), "the cache directory is not created before the file")


def matchcache(rep):
    rule = "cache"
    fn = "nx_sift_match_brute_force_with_cache"
    OPQ = ["nx_xfopen", "nx_xfread", "nx_xfwrite", "nx_fclose", "nx_xfclose", "nx_ensure_dir", "nx_sha256_multi", "nx_hash_to_str", "nx_fstr", "nx_check_file", "nx_sift_match_brute_force", "nx_xmalloc", "nx_xcalloc", "nx_free", "nx_xmalloc0"]
    m = kernels([(fn, fn, None)], opaque=OPQ, name="p14n")
    for hit in (0, 1):
        inst = "%s(%s)" % (fn, "cached" if hit else "not cached")

        def sha(p, i, st, a):
            msg = []
            for k in range(int(a[1].cval())):
                q = p._load(st, st.mem.get(a[2].base), a[2].base, a[2].off + 8 * k, 8, "ptr")
                l = p._load(st, st.mem.get(a[3].base), a[3].base, a[3].off + 8 * k, 8, "i64")
                content = p._load(st, st.mem.get(q.base), q.base, q.off, 4, "float") if isinstance(q, Ptr) and q.base.startswith("alloca") else None
                msg.append((q, l, content))
            st.events.append(("sha", a[0], msg))
        al = lambda p, i, st, a: (st.events.append(("malloc", a)), Ptr("heapm%d" % len(st.events), p.K(0)))[1]
        H = dict(fio(["stored"]), nx_sha256_multi=sha, nx_hash_to_str=ev("hex", lambda p, st, a: Ptr("heaphex", p.K(0))), nx_fstr=ev("path", lambda p, st, a: Ptr("heappath", p.K(0))), nx_check_file=ev("exists", lambda p, st, a: p.K(hit)),
                 nx_sift_match_brute_force=ev("match", lambda p, st, a: p.V("found")), nx_xmalloc=al, nx_xcalloc=al, nx_xmalloc0=al, nx_free=ev("free"))
        try:
            c = Case(m, fn, unroll=True, distinct=True, opaque=H, pre=lambda p: [(p.V("n"), POS | ZERO), (p.V("np"), POS | ZERO)])
        except Unsupported as e:
            rep.undecide(inst, e)
            continue
        for st in c.parts:
            E = lambda n: [e[1] for e in st.events if e[0] == n]
            sh = [e for e in st.events if e[0] == "sha"]
            if not rep.check(len(sh) == 1, rule, inst + " key", c.fn.where(), "%d hashes" % len(sh)):
                continue
            for b, w in (("keys", c.V("n") * 48), ("desc", c.V("n") * DIM), ("keyps", c.V("np") * 48), ("descp", c.V("np") * DIM)):
                rep.check(any(isinstance(q, Ptr) and q.base == b and q.off.same(c.K(0)) and l.same(w) for q, l, _ in sh[0][2]), rule, "%s key covers %s" % (inst, b), c.fn.where(), "%s is not part of the cache key: %s" % (b, [(str(q), str(l)) for q, l, _ in sh[0][2]]))
            rep.check(any(isinstance(x, R) and x.same(c.V("dist_ratio_thr")) and l.same(c.K(4)) for _, l, x in sh[0][2]), rule, inst + " key covers the threshold", c.fn.where(), "the threshold is not part of the cache key")
            tr = [(e[0], e[1]) for e in st.events if e[0] in ("read", "write")]
            cnt = c.V("stored") if hit else c.V("found")
            sz = k_size(c)
            ok = len(tr) == 2 and all(t[0] == ("read" if hit else "write") for t in tr) and (tr[0][1][1] * tr[0][1][2]).same(c.K(4)) and (tr[1][1][1] * tr[1][1][2]).same(cnt * sz) and tr[1][1][0].base == "corr" and tr[1][1][0].off.same(c.K(0))
            rep.check(ok, rule, inst + " transfers", c.fn.where(), "transfers %s" % [(t[0], [str(x) for x in t[1][:3]]) for t in tr])
            rep.check(st.ret.same(cnt), rule, inst + " count", c.fn.where(), "returns %s" % st.ret)
            if not hit:
                mt = E("match")
                rep.check(len(mt) == 1 and mt[0][0].same(c.V("n")) and mt[0][3].same(c.V("np")) and [x.base for x in (mt[0][1], mt[0][2], mt[0][4], mt[0][5], mt[0][6])] == ["keys", "desc", "keyps", "descp", "corr"] and mt[0][7].same(c.V("dist_ratio_thr")), rule, inst + " matches", c.fn.where(), "matches %s" % mt)
            else:
                rep.check(not E("match"), rule, inst + " reuse", c.fn.where(), "matches although cached")


def files(rep):
    rule = "file"
    OPQ = ["nx_xfopen", "nx_xfread", "nx_xfwrite", "nx_fclose", "nx_xfclose", "nx_keypoint_xread", "nx_keypoint_xwrite", "nx_xrealloc", "nx_fatal"]
    m = kernels([("nx_sift_xsave", "nx_sift_xsave", None), ("nx_sift_xload", "nx_sift_xload", None)], opaque=OPQ, name="p14f")

    def tx(nm):
        return ev(nm)
    seqs = {}
    inst = "nx_sift_xsave"
    try:
        vals = []

        def wr(p, i, st, a):
            v = None
            if a[1].same(p.K(4)) and a[2].same(p.K(1)):
                v = p._load(st, st.mem.get(a[0].base), a[0].base, a[0].off, 4, "i32")
            st.events.append(("data", a, v))
        H = dict(fio([]), nx_xfwrite=wr, nx_keypoint_xwrite=lambda p, i, st, a: st.events.append(("keys", a, None)))
        c = Case(m, inst, unroll=True, distinct=True, opaque=H)
        for st in c.parts:
            t = [e for e in st.events if e[0] in ("data", "keys")]
            ok = [e[0] for e in t] == ["data", "data", "keys", "data"]
            if rep.check(ok, rule, inst + " records", c.fn.where(), "writes %s" % [e[0] for e in t]):
                rep.check(t[0][2] is not None and t[0][2].same(c.V("n")), rule, inst + " count", c.fn.where(), "count %s" % t[0][2])
                rep.check(t[1][2] is not None and t[1][2].same(c.K(DIM)), rule, inst + " dimension", c.fn.where(), "dimension %s" % t[1][2])
                rep.check(t[2][1][0].base == "keys" and t[2][1][1].same(c.V("n")), rule, inst + " keypoints", c.fn.where(), "keypoints %s" % t[2][1])
                rep.check(t[3][1][0].base == "desc" and (t[3][1][1] * t[3][1][2]).same(c.V("n") * DIM), rule, inst + " descriptors", c.fn.where(), "descriptors %s" % t[3][1])
            rep.check(len([e for e in st.events if e[0] == "close"]) == 1, rule, inst + " close", c.fn.where(), "file is not closed once")
    except Unsupported as e:
        rep.undecide(inst, e)
    inst = "nx_sift_xload"
    for cap in (3, 20):
        for n, dim in ((7, DIM), (-1, DIM), (7, 64), (0, DIM)):
            ii = "%s(capacity %d, %d keypoints of dimension %d)" % (inst, cap, n, dim)

            def init(p, st):
                ptr_at(p, st, "keys", 0, Ptr("heapK", p.K(0)))
                ptr_at(p, st, "desc", 0, Ptr("heapE", p.K(0)))
                st.mem["max_n_keys"] = Entry("store", p.K(0), 4, p.K(cap), None)
            try:
                H = dict(fio([n, dim, 0, 0]), nx_keypoint_xread=lambda p, i, st, a: st.events.append(("keys", a)), nx_xrealloc=realloc, nx_fatal=lambda p, i, st, a: [])
                c = Case(m, inst, unroll=True, distinct=True, opaque=H, init=init)
            except Unsupported as e:
                if "never returns" in str(e) and (n < 0 or dim != DIM):
                    rep.ok(rule, ii + " refused", inst)
                else:
                    rep.undecide(ii, e)
                continue
            if n < 0 or dim != DIM:
                rep.check(not [st for st in c.parts if st.ret is not None], rule, ii + " refused", c.fn.where(), "accepts the file")
                continue
            for st in c.parts:
                t = [e for e in st.events if e[0] in ("read", "keys")]
                kk, dd = c.outat(st, "keys", 0, 8, "ptr"), c.outat(st, "desc", 0, 8, "ptr")
                mx = c.outat(st, "max_n_keys", 0, 4, "i32")
                if rep.check([e[0] for e in t] == ["read", "read", "keys", "read"], rule, ii + " records", c.fn.where(), "reads %s" % [e[0] for e in t]):
                    rep.check(t[2][1][0].base == kk.base and t[2][1][1].same(c.K(n)) and t[3][1][0].base == dd.base and (t[3][1][1] * t[3][1][2]).same(c.K(DIM * n)), rule, ii + " arrays", c.fn.where(), "keypoints %s, descriptors %s" % (t[2][1], t[3][1]))
                re = {e[1][0].base: e[1][1] for e in st.events if e[0] == "realloc"}
                if cap < n:
                    rep.check(len(re) == 2 and re["heapK"].same(c.K(48 * n)) and re["heapE"].same(c.K(DIM * n)) and mx.same(c.K(n)), rule, ii + " growth", c.fn.where(), "grows to %s" % re)
                else:
                    rep.check(not re and mx.same(c.K(cap)), rule, ii + " growth", c.fn.where(), "capacity %s" % mx)
                rep.check(st.ret.same(c.K(n)), rule, ii + " count", c.fn.where(), "returns %s" % st.ret)
