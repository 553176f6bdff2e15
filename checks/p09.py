"""FAST-9: the decision trees, scan, score search, non-maximum suppression, orientation and the detector front end."""
from vlib.pix import *

LEVEL = "proof"
RING = [(0, 3), (1, 3), (2, 2), (3, 1), (3, 0), (3, -1), (2, -2), (1, -3), (0, -3), (-1, -3), (-2, -2), (-3, -1), (-3, 0), (-3, 1), (-2, 2), (-1, 3)]
RUN = 9
OPQ = ["fast9_detect", "fast9_score", "fast_nonmax_suppression", "nx_keypoint_vector_resize", "nx_xmalloc", "nx_xcalloc", "nx_free", "atan2", "nx_keypoint_vector_alloc", "nx_keypoint_vector_free"]
B, S, D = 1, 2, 4


def lit_masks(cons, px, center, b):
    """possible states of every ring pixel under the decisions: brighter / similar / darker; None when a decision is of
    another form"""
    m = [B | S | D] * 16
    for e, s in cons:
        hit = False
        for k in range(16):
            r = e.ratio(px[k] - center - b)
            if r is not None:
                s2 = s if r > 0 else neg(s)
                ok = 0
                if s2 & POS:
                    ok |= B
                if s2 & (NEG | ZERO):
                    ok |= S | D
                if s2 in (ZERO, POS | ZERO, NEG):
                    return None
                m[k] &= ok
                hit = True
                break
            r = e.ratio(px[k] - center + b)
            if r is not None:
                s2 = s if r > 0 else neg(s)
                ok = 0
                if s2 & NEG:
                    ok |= D
                if s2 & (POS | ZERO):
                    ok |= S | B
                if s2 in (ZERO, NEG | ZERO, POS):
                    return None
                m[k] &= ok
                hit = True
                break
        if not hit:
            return None
    return m


def has_run(ring, v):
    return any(all(ring[(s + j) % 16] & v for j in range(RUN)) for s in range(16))


def can_be_corner(m):
    return has_run(m, B) or has_run(m, D)


def can_be_plain(m):
    """some completion has no run of nine brighter or nine darker pixels"""
    fixed = [S if x & S else x for x in m]
    free = [k for k in range(16) if fixed[k] == (B | D)]
    for c in range(1 << len(free)):
        r = list(fixed)
        for j, k in enumerate(free):
            r[k] = B if (c >> j) & 1 else D
        if not can_be_corner(r):
            return True
    return False


def ring_text(m):
    t = {B: "+", S: "=", D: "-", B | S: "!-", S | D: "!+", B | S | D: "?", B | D: "!="}
    return " ".join(t.get(x, "0") for x in m)


def decide(rep, rule, inst, where, m, said_corner):
    if any(x == 0 for x in m):
        return True     # infeasible
    if said_corner:
        return rep.check(not can_be_plain(m), rule, inst, where, "reported as a corner for ring states [%s], which need not contain nine contiguous brighter or darker pixels" % ring_text(m))
    return rep.check(not can_be_corner(m), rule, inst, where, "rejected for ring states [%s], which can contain nine contiguous brighter or darker pixels" % ring_text(m))


def run(rep):
    thorough = rep.tier == "thorough"
    rep.assumptions = ["pixel values and thresholds are symbolic; threshold >= 0", "scan, score and suppression are decided for the enumerated sizes",
                       "keypoints handed to suppression are in raster order with integral scores, as the detector produces them"]
    trees(rep)
    scan(rep, thorough)
    score(rep, thorough)
    nonmax(rep, thorough)
    front(rep, thorough)
    rep.need("corner decision", 1500)
    rep.need("scan", 20)
    rep.need("suppression", 60)


def pixels(c, st, base, x, y):
    s = c.V("stride")
    rd = lambda xx, yy: c.p._load(st, None, base, s * yy + c.K(xx) if not isinstance(xx, R) else s * yy + xx, 1, "i8")
    return rd(x, y), [rd(x + dx, y + dy) for dx, dy in RING]


def trees(rep):
    m = kernels([("det", "fast9_detect", {2: 7, 3: 7})] + [("sc%d" % b, "fast9_score", {3: 1, 4: b}) for b in (253,)], name="p09t")
    # detection: a 7x7 image has the single candidate (3,3)
    try:
        pre = lambda p: [(p.V("b"), POS | ZERO), (p.V("ret_num_corners[0]") - 1, POS | ZERO)]
        c = Case(m, "det", unroll=True, distinct=True, deadline=200, pre=pre)
        n = 0
        lost = 0
        for st in c.parts:
            center, px = pixels(c, st, "im", 3, 3)
            cons = [x for x in st.cons if not (x[0].vars() <= {"b", "ret_num_corners[0]"})]
            ms = lit_masks(cons, px, center, c.V("b"))
            num = c.outat(st, "ret_num_corners", 0, 4, "i32")
            if ms is None:
                lost += 1
                continue
            if not num.is_const():
                rep.undecide("fast9_detect", "number of corners %s" % num.show()[:100])
                continue
            k = num.cval()
            if k not in (0, 1):
                rep.violate("corner decision", "fast9_detect count", c.fn.where(), "one candidate pixel, %s corners reported" % k)
                continue
            if not decide(rep, "corner decision", "fast9_detect %s" % ring_text(ms), c.fn.where(), ms, k == 1):
                n += 1
                if n > 5:
                    break
            if k == 1:
                x, y = c.outat(st, "ret_corners", 0, 4, "i32"), c.outat(st, "ret_corners", 4, 4, "i32")
                rep.check(x.same(c.K(3)) and y.same(c.K(3)), "corner position", "fast9_detect %s" % ring_text(ms), c.fn.where(), "position (%s,%s)" % (x, y))
        if lost:
            rep.undecide("fast9_detect", "%d paths decide on something other than ring pixel comparisons" % lost)
    except Unsupported as e:
        rep.undecide("fast9_detect", e)
    # score: with the search started at 253 exactly one threshold (254) is tried
    try:
        def init(p, st):
            set_field(p, st, "corners", "NXKeypoint", "x", p.K(3))
            set_field(p, st, "corners", "NXKeypoint", "y", p.K(3))
        c = Case(m, "sc253", unroll=True, distinct=True, deadline=200, init=init)
        n = lost = 0
        for st in c.parts:
            center, px = pixels(c, st, "i", 3, 3)
            ms = lit_masks(st.cons, px, center, c.K(254))
            v = get_field(c.p, st, "corners", "NXKeypoint", "score", "float")
            if ms is None or not v.is_const():
                lost += 1
                continue
            if v.cval() not in (253, 254):
                rep.violate("corner decision", "fast9_score range", c.fn.where(), "score %s from a search in 253..254" % v.show())
                continue
            if not decide(rep, "corner decision", "fast9_score %s" % ring_text(ms), c.fn.where(), ms, v.cval() == 254):
                n += 1
                if n > 5:
                    break
        if lost:
            rep.undecide("fast9_score", "%d paths decide on something other than ring pixel comparisons at 254" % lost)
    except Unsupported as e:
        rep.undecide("fast9_score", e)


def dots(c_bg, c_dot, stride, at):
    at = {y * stride + x for x, y in at}

    def f(off, size, ty):
        if size != 1 or not off.is_const():
            raise Unsupported("image read of another width")
        return c_dot if int(off.cval()) in at else c_bg
    return f


def scan(rep, thorough):
    """background g, isolated dots d with d > g + b: exactly the dots at distance >= 3 from the border are corners,
    reported in raster order up to the capacity"""
    sizes = [(9, 8, 11), (8, 9, 8), (7, 7, 7), (6, 9, 6), (9, 6, 9)]
    if thorough:
        sizes += [(w, h, w + e) for w in range(6, 14) for h in range(6, 14) for e in (0, 3)]
    sizes = sorted(set(sizes))
    m = kernels([("d%d_%d_%d" % z, "fast9_detect", {2: z[0], 3: z[1], 4: z[2]}) for z in sizes], name="p09s")
    for w, h, rs in sizes:
        cand = [(x, y) for y in range(3, h - 3) for x in range(3, w - 3)]
        jobs = [([p], 10) for p in cand]
        jobs += [([(x, y)], 10) for x in range(w) for y in range(h) if (x in (2, w - 3) or y in (2, h - 3)) and (x, y) not in cand][:6]
        jobs += [([], 10)]
        if w >= 9 and h >= 8:
            # dots whose rings do not meet
            far = [(3, 3), (w - 4, h - 4)]
            jobs += [(far, 10), (far, 2), (far, 1)]
        for at, cap in jobs:
            inst = "fast9_detect %dx%d stride %d, dots %s, capacity %d" % (w, h, rs, at, cap)
            try:
                def init(p, st):
                    st.mem["im"] = Entry("fn", p.K(0), 0, dots(p.V("g"), p.V("d"), rs, at), None)
                    st.mem["ret_num_corners"] = Entry("store", p.K(0), 4, p.K(cap), None)
                pre = lambda p: [(p.V("b"), POS), (p.V("d") - p.V("g") - p.V("b"), POS), (p.V("d") - p.V("g") + p.V("b"), POS)]
                c = Case(m, "d%d_%d_%d" % (w, h, rs), unroll=True, distinct=True, init=init, pre=pre)
                exp = [p for p in sorted(at, key=lambda q: (q[1], q[0])) if p in cand][:cap]
                for st in c.parts:
                    num = c.outat(st, "ret_num_corners", 0, 4, "i32")
                    if not num.is_const():
                        rep.undecide(inst, num.show()[:80])
                        continue
                    n = int(num.cval())
                    got = []
                    if n <= 20:
                        for k in range(n):
                            x, y = c.outat(st, "ret_corners", 48 * k, 4, "i32"), c.outat(st, "ret_corners", 48 * k + 4, 4, "i32")
                            got.append((int(x.cval()) if x.is_const() else x.show(), int(y.cval()) if y.is_const() else y.show()))
                    rep.check(got == exp, "scan", inst, c.fn.where(), "reports %s, the definition gives %s" % (got or n, exp))
                    bad = [x for x in c.written(st, "ret_corners") if x[0] == "sym" or x[0] >= 48 * cap]
                    rep.check(not bad, "capacity", inst, c.fn.where(), "writes keypoint slots at %s" % bad[:3])
            except Unsupported as e:
                rep.undecide(inst, e)


def score(rep, thorough):
    """dot on a flat background, difference known: the score is the largest threshold at which it is a corner"""
    starts = (0, 1, 10, 15, 100, 250, 254) if not thorough else range(0, 255, 3)
    deltas = [-255, -200, -16, -15, -1, 0, 1, 2, 11, 15, 16, 17, 101, 200, 254, 255] if not thorough else range(-255, 256)
    m = kernels([("s%d" % b, "fast9_score", {1: 9, 3: 2, 4: b}) for b in starts], name="p09c")
    for b in starts:
        for dl in deltas:
            inst = "fast9_score from threshold %d, contrast %d" % (b, dl)
            try:
                def init(p, st):
                    st.mem["i"] = Entry("fn", p.K(0), 0, dots(p.V("g"), p.V("g") + dl, 9, [(4, 3)]), None)
                    for k, (x, y) in enumerate(((4, 3), (5, 4))):
                        st.mem["corners"] = Entry("store", p.K(48 * k), 4, p.K(x), st.mem.get("corners"))
                        st.mem["corners"] = Entry("store", p.K(48 * k + 4), 4, p.K(y), st.mem.get("corners"))
                c = Case(m, "s%d" % b, unroll=True, distinct=True, init=init)
                off, _ = field_off(c.p, "NXKeypoint", "score")
                exp = max(b, min(abs(dl) - 1, 254))
                for st in c.parts:
                    v = c.outat(st, "corners", off, 4, "float")
                    v2 = c.outat(st, "corners", 48 + off, 4, "float")
                    rep.check(v.is_const() and v.cval() == exp, "score search", inst, c.fn.where(), "score %s, the largest threshold keeping the corner is %d" % (v.show(), exp))
                    rep.check(v2.is_const() and v2.cval() == b, "score search", inst + " (flat neighbour)", c.fn.where(), "score %s, expected %d" % (v2.show(), b))
            except Unsupported as e:
                rep.undecide(inst, e)


# raster-ordered corner layouts for suppression
LAYOUTS = [
    [(5, 5)],
    [(5, 5), (6, 5)], [(5, 5), (7, 5)], [(5, 5), (5, 6)], [(5, 5), (4, 6)], [(5, 5), (6, 6)], [(5, 5), (7, 6)], [(5, 5), (3, 6)], [(5, 5), (5, 7)],
    [(5, 5), (6, 5), (7, 5)], [(4, 5), (6, 5), (5, 6)], [(5, 5), (4, 6), (6, 6)], [(3, 5), (5, 5), (4, 6), (5, 7)],
    [(2, 4), (9, 4), (3, 5), (8, 5)], [(2, 4), (4, 4), (9, 4), (8, 5), (10, 5)], [(5, 3), (5, 5), (6, 6), (2, 7)], [(9, 4), (3, 5), (4, 6), (8, 6)],
    [(3, 0), (4, 0), (3, 1)], [(0, 0), (1, 1), (0, 2)], [(5, 5), (6, 5), (5, 6), (6, 6)],
    [(2, 4), (3, 4), (6, 4), (2, 5), (7, 5)], [(1, 2), (1, 4), (1, 6)], [(4, 3), (8, 3), (9, 3), (3, 4), (9, 4)], [(4, 3), (2, 4), (6, 4), (7, 4), (4, 5), (7, 5)],
    [(10, 3), (2, 4), (11, 4), (1, 5), (12, 5)], [(10, 3), (11, 4), (12, 5), (3, 6)],
]


def nonmax(rep, thorough):
    lays = list(LAYOUTS)
    if thorough:
        import itertools
        pos = [(x, y) for y in range(3) for x in range(4)]
        for n in (1, 2, 3, 4):
            lays += [list(z) for z in itertools.combinations(pos, n)]
    m = kernels([("nm%d" % n, "fast_nonmax_suppression", {2: n}) for n in sorted({len(l) for l in lays} | {0})], name="p09n")
    for li, lay in enumerate(lays):
        for cap in sorted({len(lay) + 2, len(lay), 1}):
            inst = "suppression of %s, capacity %d" % (lay, cap)
            try:
                def init(p, st):
                    for k, (x, y) in enumerate(lay):
                        for f, v in (("x", p.K(x)), ("y", p.K(y)), ("score", app(p.ctx, "int", p.V("s%d" % k))), ("id", p.K(100 + k))):
                            o, sz = field_off(p, "NXKeypoint", f)
                            st.mem["corners"] = Entry("store", p.K(48 * k + o), sz, v, st.mem.get("corners"))
                    st.mem["ret_num_nonmax"] = Entry("store", p.K(0), 4, p.K(cap), None)
                c = Case(m, "nm%d" % len(lay), unroll=True, distinct=True, init=init, max_parts=20000, deadline=120)
                ofx, _ = field_off(c.p, "NXKeypoint", "x")
                ofi, szi = field_off(c.p, "NXKeypoint", "id")
                sc = [app(c.ctx, "int", c.V("s%d" % k)) for k in range(len(lay))]
                bad = None
                for st in c.parts:
                    keep = []
                    vague = False
                    for k, (x, y) in enumerate(lay):
                        out = False
                        for j, (u, v) in enumerate(lay):
                            if j != k and abs(u - x) <= 1 and abs(v - y) <= 1:
                                s = c.p.sign_under(st.cons, sc[j] - sc[k])
                                if not (s & NEG):
                                    out = True
                        if not out and any(c.p.sign_under(st.cons, sc[j] - sc[k]) & (ZERO | POS) for j, (u, v) in enumerate(lay) if j != k and abs(u - x) <= 1 and abs(v - y) <= 1):
                            out = None
                        keep.append(out)
                    num = c.outat(st, "ret_num_nonmax", 0, 4, "i32")
                    if not num.is_const():
                        raise Unsupported("count %s" % num.show()[:60])
                    got = []
                    for k in range(int(num.cval())):
                        if int(num.cval()) > len(lay):
                            break
                        v = c.outat(st, "ret_nonmax", 48 * k + ofi, szi, "i64")
                        got.append(int(v.cval()) - 100 if v.is_const() else v.show())
                    # out None: the decisions do not settle it; such a corner must not have been decided either way, unless the capacity ended the scan
                    ok = True
                    if int(num.cval()) > min(cap, len(lay)):
                        ok = False
                    elif len(got) < cap:
                        for k in range(len(lay)):
                            if keep[k] is True and k in got or keep[k] is False and k not in got or keep[k] is None and k in got:
                                ok = False
                            if keep[k] is None and k not in got:
                                ok = False
                        ok = ok and got == sorted(got, key=str)
                    else:
                        last = max(got) if all(isinstance(g, int) for g in got) else -1
                        for k in range(last + 1):
                            if (keep[k] is False) != (k in got):
                                ok = False
                    for x in c.written(st, "ret_nonmax"):
                        if x[0] == "sym" or x[0] >= 48 * cap:
                            ok = False
                    if not ok:
                        bad = "when %s keeps corners %s" % (guard_text(st), got)
                        break
                rep.check(bad is None, "suppression", inst, c.fn.where(), "%s; a corner is kept iff no 8-neighbour scores at least as much" % bad)
            except Unsupported as e:
                rep.undecide(inst, e)
    try:
        c = Case(m, "nm0", unroll=True, distinct=True)
        for st in c.parts:
            v = c.outat(st, "ret_num_nonmax", 0, 4, "i32")
            rep.check(v.same(c.K(0)), "suppression", "no corners", c.fn.where(), "count %s" % v.show())
    except Unsupported as e:
        rep.undecide("no corners", e)


def front(rep, thorough):
    """nx_fast_detect_keypoints, _score_, _suppress_, the pyramid and detector versions, orientation, threshold adaptation"""
    fields = ["xs", "ys", "level", "scale", "sigma", "score", "ori", "id"]
    P = ["nx_fast_detect_keypoints", "nx_fast_score_keypoints", "nx_fast_suppress_keypoints", "nx_fast_detect_keypoints_pyr",
         "nx_fast_detector_detect", "nx_fast_detector_detect_pyr", "nx_fast_detector_adapt_threshold", "nx_fast_detector_alloc"]
    m = kernels([(n, n, None) for n in P], opaque=OPQ, name="p09f")

    def fo(p, f):
        return field_off(p, "NXKeypoint", f)

    def world(found, kept):
        """handlers: call number k of fast9_detect finds found[k] corners (at most its capacity), suppression keeps kept[k]"""
        def num(st, what):
            return sum(1 for e in st.events if e[0] == what)

        def det(p, i, st, a):
            k = num(st, "det")
            cap = p._load(st, st.mem.get(a[6].base), a[6].base, a[6].off, 4, "i32")
            st.events.append(("det", k, a, cap))
            n = found[k] if k < len(found) else 0
            if cap.is_const():
                n = min(n, int(cap.cval()))
            b = a[0]
            st.mem[b.base] = Entry("havoc", None, None, "det%d" % k, st.mem.get(b.base))
            for j in range(n):
                for f in ("x", "y"):
                    o, sz = fo(p, f)
                    st.mem[b.base] = Entry("store", b.off + p.K(48 * j + o), sz, p.V("%s%d_%d" % (f, k, j)), st.mem.get(b.base))
            st.mem[a[6].base] = Entry("store", a[6].off, 4, p.K(n), st.mem.get(a[6].base))
            return None

        def sco(p, i, st, a):
            st.events.append(("score", num(st, "score"), a))
            return None

        def sup(p, i, st, a):
            k = num(st, "sup")
            cap = p._load(st, st.mem.get(a[0].base), a[0].base, a[0].off, 4, "i32")
            st.events.append(("sup", k, a, cap))
            n = kept[k] if k < len(kept) else 0
            if cap.is_const():
                n = max(0, min(n, int(cap.cval())))
            b = a[1]
            for j in range(n):
                for f in ("x", "y", "xs", "ys", "level", "scale", "sigma", "score", "ori", "id"):
                    o, sz = fo(p, f)
                    v = p.V("k%s%d_%d" % (f, k, j))
                    if f in ("x", "y"):
                        v = p.K(KX[(k, j)][0 if f == "x" else 1]) if (k, j) in KX else v
                    st.mem[b.base] = Entry("store", b.off + p.K(48 * j + o), sz, v, st.mem.get(b.base))
            st.mem[a[0].base] = Entry("store", a[0].off, 4, p.K(n), st.mem.get(a[0].base))
            return None

        def rsz(p, i, st, a):
            st.events.append(("vresize", a[0].base, a[1]))
            # size_t size; data
            set_field(p, st, a[0].base, "NXKeypointVector", "size", a[1])
            set_field(p, st, a[0].base, "NXKeypointVector", "data", Ptr("work", p.K(0)))
            return None

        def alloc(p, i, st, a):
            return Ptr("heap%d_%d" % (i.id, len(st.events)), p.K(0))

        def at2(p, i, st, a):
            return app(p.ctx, "atan2", a[0], a[1])
        return {"fast9_detect": det, "fast9_score": sco, "fast_nonmax_suppression": sup, "nx_keypoint_vector_resize": rsz,
                "nx_xmalloc": alloc, "nx_xcalloc": alloc, "nx_free": nothing, "atan2": at2,
                "nx_keypoint_vector_alloc": lambda p, i, st, a: Ptr("vec", p.K(0)), "nx_keypoint_vector_free": nothing}

    KX = {}
    rule = "detector front end"

    def each(inst, alias, fn, **kw):
        try:
            c = Case(m, alias, unroll=True, distinct=True, **kw)
            for st in c.parts:
                fn(c, st)
        except Unsupported as e:
            rep.undecide(inst, e)

    def same(inst, c, label, a, e):
        e = e if isinstance(e, (R, Ptr)) else c.K(e)
        if isinstance(e, Ptr):
            g = isinstance(a, Ptr) and a.base == e.base and a.off.same(e.off)
        else:
            g = isinstance(a, R) and a.same(e)
        rep.check(g, rule, "%s: %s" % (inst, label), c.fn.where(), "%s is %s, expected %s" % (label, a, e))

    def img_args(inst, c, ev, img, thr, what):
        a = ev[2]
        V = lambda f: c.V("%s.%s" % (img, f))
        if what == "det":
            same(inst, c, "pixels", a[1], Ptr("*%s.data" % img, c.K(0)))
            same(inst, c, "width", a[2], V("width"))
            same(inst, c, "height", a[3], V("height"))
            same(inst, c, "stride", a[4], V("row_stride"))
            same(inst, c, "threshold", a[5], thr)
        else:
            same(inst, c, "score pixels", a[0], Ptr("*%s.data" % img, c.K(0)))
            same(inst, c, "score stride", a[1], V("row_stride"))
            same(inst, c, "score threshold", a[4], thr)

    # detect
    for found in (0, 1, 3):
        def f(c, st):
            inst = "nx_fast_detect_keypoints, %d corners" % found
            ev = [e for e in st.events if e[0] == "det"]
            if len(ev) != 1:
                rep.check(not ev and st.ret.same(c.K(0)) and c.p.sign_under(st.cons, c.V("n_keys_max")) == ZERO, rule, inst, c.fn.where(), "%d scans" % len(ev))
                return
            img_args(inst, c, ev[0], "img", c.V("threshold"), "det")
            same(inst, c, "capacity", ev[0][3], c.V("n_keys_max"))
            same(inst, c, "destination", ev[0][2][0], Ptr("keys", c.K(0)))
            same(inst, c, "count", st.ret, found)
            for j in range(found):
                x, y = c.V("x0_%d" % j), c.V("y0_%d" % j)
                for fn_, v in zip(fields, (x, y, 0, 1, 0, 0, 0, j)):
                    o, sz = fo(c.p, fn_)
                    same(inst, c, "keys[%d].%s" % (j, fn_), c.outat(st, "keys", 48 * j + o, sz, "i64" if fn_ == "id" else "i32" if fn_ == "level" else "float"), v)
        each("nx_fast_detect_keypoints", "nx_fast_detect_keypoints", f, opaque=world([found], []))

    def f(c, st):
        inst = "nx_fast_score_keypoints"
        ev = [e for e in st.events if e[0] == "score"]
        if len(ev) != 1:
            rep.check(False, rule, inst, c.fn.where(), "%d score calls" % len(ev))
            return
        img_args(inst, c, ev[0], "img", c.V("threshold"), "score")
        same(inst, c, "keypoints", ev[0][2][2], Ptr("keys", c.K(0)))
        same(inst, c, "count", ev[0][2][3], c.V("n_keys"))
    each("nx_fast_score_keypoints", "nx_fast_score_keypoints", f, opaque=world([], []))

    for kept in (0, 1, 3):
        def f(c, st):
            inst = "nx_fast_suppress_keypoints, %d kept" % kept
            ev = [e for e in st.events if e[0] == "sup"]
            if len(ev) != 1:
                rep.check(False, rule, inst, c.fn.where(), "%d suppression calls" % len(ev))
                return
            same(inst, c, "capacity", ev[0][3], c.V("n_keys_supp_max"))
            same(inst, c, "destination", ev[0][2][1], Ptr("keys_supp", c.K(0)))
            same(inst, c, "count in", ev[0][2][2], c.V("n_keys"))
            same(inst, c, "source", ev[0][2][3], Ptr("keys", c.K(0)))
            same(inst, c, "count", st.ret, kept)
            for j in range(kept):
                o, sz = fo(c.p, "id")
                same(inst, c, "keys[%d].id" % j, c.outat(st, "keys_supp", 48 * j + o, sz, "i64"), j)
        each("nx_fast_suppress_keypoints", "nx_fast_suppress_keypoints", f, opaque=world([], [kept]))

    # pyramids: levels from coarse to fine, remaining capacity, per-level attributes, running ids
    def pyr_case(kind, nl, want, cap, kept):
        name = {"plain": "nx_fast_detect_keypoints_pyr", "det": "nx_fast_detector_detect_pyr"}[kind]
        inst = "%s(levels=%d, asked=%d, capacity=%d, per-level survivors %s)" % (name, nl, want, cap, kept)

        def init(p, st):
            set_field(p, st, "pyr", "NXImagePyr", "n_levels", p.K(nl))
            if kind == "det":
                set_field(p, st, "detector", "NXFastDetector", "compute_ori", p.K(0))
                set_field(p, st, "detector", "NXFastDetector", "work_multiplier", p.K(10))
        av = {}
        c0 = Ctx()
        K = lambda x: R.const(c0, x)
        if kind == "plain":
            av = {0: K(cap), 2: K(40), 6: K(want)}
        else:
            av = {1: K(cap), 4: K(want)}

        def f(c, st):
            n_used = nl if want <= 0 or want > nl else want
            left = cap
            tot = 0
            exp_levels = []
            for k, lv in enumerate(range(n_used - 1, -1, -1)):
                exp_levels.append(lv)
                left -= min(kept[k], left)
                if left <= 0:
                    break
            evs = [e for e in st.events if e[0] == "det"]
            sups = [e for e in st.events if e[0] == "sup"]
            scs = [e for e in st.events if e[0] == "score"]
            if not rep.check(len(evs) == len(sups) == len(scs) == len(exp_levels), rule, inst, c.fn.where(), "%d scans, %d scorings, %d suppressions for levels %s" % (len(evs), len(scs), len(sups), exp_levels)):
                return
            dst = "keys_supp" if kind == "plain" else "keys"
            wrk = "keys" if kind == "plain" else "work"
            thr = c.V("threshold") if kind == "plain" else c.V("detector.threshold")
            wcap = c.K(40) if kind == "plain" else c.K(cap * 10)
            left, tot = cap, 0
            for k, lv in enumerate(exp_levels):
                t = "" if lv == 0 else "{%d}" % lv
                img = "**pyr.levels%s.img" % t
                img = "**pyr.levels%s.img" % t
                img_args(inst, c, evs[k], img[1:] if False else img, thr, "det")
                img_args(inst, c, scs[k], img, thr, "score")
                same(inst, c, "work buffer", evs[k][2][0], Ptr(wrk, c.K(0)))
                same(inst, c, "work capacity", evs[k][3], wcap)
                same(inst, c, "suppression capacity at level %d" % lv, sups[k][3], left)
                same(inst, c, "suppression destination at level %d" % lv, sups[k][2][1], Ptr(dst, c.K(48 * tot)))
                same(inst, c, "suppression source", sups[k][2][3], Ptr(wrk, c.K(0)))
                same(inst, c, "suppression count", sups[k][2][2], 7)
                same(inst, c, "score count", scs[k][2][3], 7)
                n = min(kept[k], left)
                for j in range(n):
                    for fn_, v in (("level", lv), ("sigma", c.V("*pyr.levels%s.sigma" % t)), ("scale", c.V("*pyr.levels%s.scale" % t)), ("id", tot + j)):
                        o, sz = fo(c.p, fn_)
                        same(inst, c, "keys[%d].%s" % (tot + j, fn_), c.outat(st, dst, 48 * (tot + j) + o, sz, "i64" if fn_ == "id" else "i32" if fn_ == "level" else "float"), v)
                    for fn_ in ("x", "y", "xs", "ys", "score"):
                        o, sz = fo(c.p, fn_)
                        same(inst, c, "keys[%d].%s" % (tot + j, fn_), c.outat(st, dst, 48 * (tot + j) + o, sz, "i32" if fn_ in "xy" else "float"), c.V("k%s%d_%d" % (fn_, k, j)))
                left -= n
                tot += n
            same(inst, c, "count", st.ret, tot)
        try:
            c = Case(m, name, unroll=True, distinct=True, init=init, argvals=av, ctx=c0, opaque=world([7] * 4, kept))
            for st in c.parts:
                f(c, st)
        except Unsupported as e:
            rep.undecide(inst, e)
    for kind in ("plain", "det"):
        for nl, want, cap, kept in ((1, 0, 5, [2]), (3, 0, 9, [2, 1, 3]), (3, 2, 9, [1, 2]), (3, 7, 9, [1, 0, 2]), (3, -1, 3, [1, 2, 2]), (3, 0, 2, [4, 1, 1]), (2, 0, 3, [1, 3])):
            pyr_case(kind, nl, want, cap, kept)

    # single image detector
    for ori in (0, 1):
        def init(p, st):
            set_field(p, st, "detector", "NXFastDetector", "compute_ori", p.K(ori))
            set_field(p, st, "detector", "NXFastDetector", "work_multiplier", p.K(10))
            set_field(p, st, "img", "NXImage", "width", p.K(9))
            set_field(p, st, "img", "NXImage", "height", p.K(8))
            ic = "*detector.ic_data"
            rad = 2
            tab = [(x, y) for y in range(-rad, rad) for x in range(-rad, rad) if x * x + y * y < rad * rad]
            set_field(p, st, ic, "NXFastDetectorICData", "radius", p.K(rad))
            set_field(p, st, ic, "NXFastDetectorICData", "n_offsets", p.K(len(tab)))
            set_field(p, st, ic, "NXFastDetectorICData", "offset_table", Ptr("tab", p.K(0)))
            for k, (x, y) in enumerate(tab):
                st.mem["tab"] = Entry("store", p.K(8 * k), 4, p.K(x), st.mem.get("tab"))
                st.mem["tab"] = Entry("store", p.K(8 * k + 4), 4, p.K(y), st.mem.get("tab"))
        pts = [(2, 2), (4, 3), (6, 5), (1, 4), (7, 4), (4, 1), (4, 6)]
        KX.clear()
        KX.update({(0, j): p for j, p in enumerate(pts)})
        c0 = Ctx()
        inst = "nx_fast_detector_detect%s" % (" with orientation" if ori else "")
        try:
            c = Case(m, "nx_fast_detector_detect", unroll=True, distinct=True, init=init, ctx=c0, argvals={1: R.const(c0, 20)}, opaque=world([7], [len(pts)]))
            for st in c.parts:
                evs = [e for e in st.events if e[0] == "det"]
                sups = [e for e in st.events if e[0] == "sup"]
                if not rep.check(len(evs) == 1 and len(sups) == 1, rule, inst, c.fn.where(), "scan or suppression missing"):
                    continue
                same(inst, c, "work capacity", evs[0][3], 200)
                same(inst, c, "suppression capacity", sups[0][3], 20)
                same(inst, c, "count", st.ret, len(pts))
                for j, (x, y) in enumerate(pts):
                    o, sz = fo(c.p, "ori")
                    v = c.outat(st, "keys", 48 * j + o, sz, "float")
                    inside = 2 <= x < 9 - 2 and 2 <= y < 8 - 2
                    if ori and inside:
                        mx = my = c.K(0)
                        for dy in range(-1, 2):
                            for dx in range(-1, 2):
                                px = c.p._load(st, None, "*img.data", c.V("img.row_stride") * (y + dy) + c.K(x + dx), 1, "i8")
                                mx, my = mx + px * dx, my + px * dy
                        same(inst, c, "keys[%d].ori" % j, v, app(c.ctx, "atan2", my, mx))
                    else:
                        same(inst, c, "keys[%d].ori" % j, v, c.V("kori0_%d" % j))
        except Unsupported as e:
            rep.undecide(inst, e)
    KX.clear()
    icdata(rep, world)
    adapt(rep, m)


def icdata(rep, world):
    rads = (1, 2, 3, 5)
    m = kernels([("sop%d" % r, "nx_fast_detector_set_ori_param", {1: 1, 2: r}) for r in rads] + [("off", "nx_fast_detector_set_ori_param", {1: 0, 2: 3})], opaque=OPQ, name="p09i")
    for r in rads:
        inst = "orientation patch radius %d" % r
        try:
            c = Case(m, "sop%d" % r, unroll=True, distinct=True, opaque=world([], []))
            exp = [(x, y) for y in range(-r, r + 1) for x in range(-r, r + 1) if x * x + y * y < r * r]
            for st in c.parts:
                ic = c.p._load(st, st.mem.get("detector"), "detector", c.K(field_off(c.p, "NXFastDetector", "ic_data")[0]), 8, "ptr")
                G = lambda f, ty: get_field(c.p, st, ic.base, "NXFastDetectorICData", f, ty)
                n = G("n_offsets", "i32")
                ok = n.same(c.K(len(exp))) and G("radius", "i32").same(c.K(r))
                tab = G("offset_table", "ptr")
                got = []
                if ok:
                    for k in range(len(exp)):
                        a, b = c.outat(st, tab.base, 8 * k, 4, "i32"), c.outat(st, tab.base, 8 * k + 4, 4, "i32")
                        got.append((int(a.cval()), int(b.cval())) if a.is_const() and b.is_const() else None)
                rep.check(ok and sorted(got, key=str) == sorted(exp, key=str), "orientation patch", inst, c.fn.where(), "%s offsets %s; the patch is every offset inside the circle" % (n, got[:6]))
                v = get_field(c.p, st, "detector", "NXFastDetector", "compute_ori")
                rep.check(v.is_const() and v.cval() != 0, "orientation patch", inst + " enabled", c.fn.where(), "compute_ori is %s" % v)
        except Unsupported as e:
            rep.undecide(inst, e)


def adapt(rep, m):
    """threshold stays in 5..250 from any start in that range, moves up only when full, down only when clearly below"""
    inst = "nx_fast_detector_adapt_threshold"
    try:
        n = 0
        for mx in (1, 10, 100, 1000, 5000):
            lo, vl, hi = (921 * mx) >> 10, (716 * mx) >> 10, (1014 * mx) >> 10
            for nk in sorted({0, vl - 1, vl, vl + 1, lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, mx}):
                if nk < 0:
                    continue
                for t in (5, 6, 7, 8, 9, 15, 100, 246, 247, 248, 249, 250):
                    c0 = Ctx()

                    def init(p, st):
                        set_field(p, st, "detector", "NXFastDetector", "threshold", p.K(t))
                    c = Case(m, inst, unroll=True, distinct=True, init=init, ctx=c0, argvals={1: R.const(c0, nk), 2: R.const(c0, mx)})
                    for st in c.parts:
                        v = get_field(c.p, st, "detector", "NXFastDetector", "threshold")
                        if nk >= hi:
                            e = min(250, t + 3)
                        elif nk <= vl:
                            e = max(5, t - 3)
                        elif nk <= lo:
                            e = max(5, t - 1)
                        else:
                            e = t
                        rep.check(v.is_const() and v.cval() == e, "threshold adaptation", "%d of %d keypoints at threshold %d" % (nk, mx, t), c.fn.where(), "threshold becomes %s, expected %d" % (v.show(), e))
    except Unsupported as e:
        rep.undecide(inst, e)
