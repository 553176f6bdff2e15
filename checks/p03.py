"""Planar geometry: 2D transforms and homographies obey their defining equations."""
from vlib.kern import *

LEVEL = "proof"
PLAIN = """nx_transform_2d_fill_similarity_s nx_transform_2d_fill_similarity_d nx_transform_2d_fill_affine_s nx_transform_2d_fill_affine_d
nx_transform_2d_fill_perspective_s nx_transform_2d_fill_perspective_d nx_homography_estimate_unit nx_homography_transfer_fwd
nx_homography_mark_inliers nx_homography_mark_inliers_inv nx_point_match_2d_count_inliers
nx_point_match_2d_stats_denormalize_homography nx_point_match_2d_stats_denormalize_matches nx_point_match_2d_stats_normalize_matches
nx_homography_transfer_error_fwd nx_homography_check nx_point_match_2d_stats_reset""".split()
OPQ = ["nx_homography_estimate_4pt", "nx_homography_estimate_dlt", "nx_homography_estimate_dlt_inliers"]
OPI = ["nx_homography_transfer_error_bwd"]


def transfer(H, x, y):
    w = H[2] * x + H[5] * y + H[8]
    return (H[0] * x + H[3] * y + H[6]) / w, (H[1] * x + H[4] * y + H[7]) / w, w


def run(rep):
    m = kernels([(n, n, None) for n in PLAIN])
    mo = kernels([(n, n, None) for n in OPQ], opaque=["nx_dsvd_us", "nx_homography_estimate_unit"], name="kern_o")
    mi = kernels([(n, n, None) for n in OPI], opaque=["nx_dmat3_inv"], name="kern_i")
    ck, cko = Checker(rep, m), Checker(rep, mo)
    rep.analysed = {"kernels": len(PLAIN) + len(OPQ), "functions": len(m.defined()) + len(mo.defined())}
    rep.assumptions = ["real-arithmetic semantics: floating-point rounding and overflow are not modelled",
                       "distinct pointer arguments do not overlap", "array loops are checked for a generic iteration"]

    def T(c, dx, dy):
        o, z = c.K(1), c.K(0)
        return [o, z, z, z, o, z, dx, dy, o]

    def Rot(c, a, s):
        co, si, o, z = fcos(c.ctx, a), fsin(c.ctx, a), c.K(1), c.K(0)
        return [s * co, s * si, z, -(s * si), s * co, z, z, z, o]

    for t, sz in (("s", 4), ("d", 8)):
        def sim(c, st, eq, sz=sz):
            e = mmul3(mmul3(T(c, c.V("dx_post"), c.V("dy_post")), Rot(c, c.V("theta"), c.V("lambda"))), T(c, c.V("dx_pre"), c.V("dy_pre")))
            for k in range(9):
                eq("[%d]" % k, c.out(st, "t", k, sz), e[k])
            c.only_writes(rep, st, {"t": 9 * sz})

        def aff(c, st, eq, sz=sz):
            o, z = c.K(1), c.K(0)
            D = [o / fcos(c.ctx, c.V("theta")), z, z, z, o, z, z, z, o]
            e = mmul3(T(c, c.V("dx_post"), c.V("dy_post")), Rot(c, c.V("psi"), c.V("lambda")))
            e = mmul3(mmul3(mmul3(e, D), Rot(c, c.V("phi"), o)), T(c, c.V("dx_pre"), c.V("dy_pre")))
            for k in range(9):
                eq("[%d]" % k, c.out(st, "t", k, sz), e[k])
            c.only_writes(rep, st, {"t": 9 * sz})

        def unitsq(c, st, eq, sz=sz, base="t", src="corners"):
            H = [c.out(st, base, k, sz) for k in range(9)]
            x = c.arr(src, 8)
            # projective action checked on numerators: w * u' = numerator
            for k, (u, v) in enumerate(((0, 0), (1, 0), (1, 1), (0, 1))):
                px, py = x[2 * k], x[2 * k + 1]
                w = H[2] * px + H[5] * py + H[8]
                eq("corner %d x" % k, H[0] * px + H[3] * py + H[6] - w * u, 0)
                eq("corner %d y" % k, H[1] * px + H[4] * py + H[7] - w * v, 0)
            # non-degenerate: the map is not the zero matrix
            rep.check(not all(isinstance(h, R) and h.same(0) for h in H), "formula", c.fn.name[3:] + ": not the zero matrix", c.fn.where(), "zero matrix")
            c.only_writes(rep, st, {base: 9 * sz})
        ck.kernel("nx_transform_2d_fill_similarity_" + t, sim)
        ck.kernel("nx_transform_2d_fill_affine_" + t, aff)
        ck.kernel("nx_transform_2d_fill_perspective_" + t, unitsq)
    ck.kernel("nx_homography_estimate_unit", lambda c, st, eq: unitsq(c, st, eq, 8, "h", "x"))

    def tf(c, st, eq):
        H, x = c.arr("h", 9), c.arr("x", 2)
        u, v, w = transfer(H, x[0], x[1])
        eq("scale", st.ret, w)
        eq("x", c.out(st, "xp", 0, 4), u)
        eq("y", c.out(st, "xp", 1, 4), v)
        c.only_writes(rep, st, {"xp": 8})
    ck.kernel("nx_homography_transfer_fwd", tf)

    def marks(c, hname, inv):
        """every correspondence gets its flag; the flag says squared transfer error < tolerance^2; the count is the number of set flags"""
        name = c.fn.name[3:]
        recs = [r for r in c.p.iters if r["depth"] == 0]
        if len(recs) != 1:
            rep.undecide(name, "expected one loop over the correspondences")
            return
        r = recs[0]
        tol = c.V("inlier_tolerance")
        H = c.arr(hname, 9)
        accs = set()
        for kind, s, lv in [("latch", s, v) for s, v in zip(r["latch"], r["latch_vals"])] + [("exit", s, None) for s in r["exits"]]:
            ws = stores(r, s)
            if kind == "exit" and not ws:
                continue
            fw = [w for w in ws if w[0] == "corr_list"]
            other = [w for w in ws if w[0] != "corr_list"]
            rep.check(len(fw) == 1 and not other, "formula", name + ": one flag written per correspondence", c.fn.where(), "stores %s when %s" % (ws, guard_text(s)))
            if len(fw) != 1:
                continue
            nm = c.p.symname("corr_list", fw[0][1], 4)
            ok = nm.endswith(".is_inlier")
            rep.check(ok, "formula", name + ": the flag field is written", c.fn.where(), "writes %s" % nm)
            if not ok:
                continue
            pre = nm[:-len(".is_inlier")]
            idx = (fw[0][1] - fw[0][1].n.cval()) / c.K(c.p.base_struct["corr_list"]["size"])
            F = lambda p: c.V("%s.%s" % (pre, p))
            a, b = ("xp", "x") if inv else ("x", "xp")
            u, v, w = transfer(H, F(a + "[0]"), F(a + "[1]"))
            d2 = (u - F(b + "[0]")) ** 2 + (v - F(b + "[1]")) ** 2
            sg = sign_of(s, d2 - tol * tol)
            val = fw[0][3]
            if sg == NEG:
                good = isinstance(val, R) and val.is_const() and val.cval() == 1
            elif not sg & NEG:
                good = isinstance(val, R) and val.is_const() and val.cval() == 0
            else:
                good = False
            rep.check(good, "formula", name + ": flag is 'squared transfer error below squared tolerance'", c.fn.where(),
                      "flag %s when %s" % (val, guard_text(s)))
            err = covers(r, idx, c.V("n_corr"))
            rep.check(err is None, "every element visited", name, c.fn.where(), err or "")
            if kind == "latch":
                for pid, nv in lv.items():
                    at = r["at"][pid]
                    if isinstance(at, R) and isinstance(nv, R) and r["steps"][pid] is None:
                        rep.check((nv - at).same(val), "formula", name + ": the count grows by the flag", c.fn.where(), "count changes by %s for flag %s" % ((nv - at).show(), val))
                        accs.add(at.show())
                        rep.check(isinstance(r["entry"][pid], R) and r["entry"][pid].same(0), "formula", name + ": the count starts at zero", c.fn.where(), "%s" % r["entry"][pid])
        for st in c.parts:
            if st.exit_of is None:
                rep.check(isinstance(st.ret, R) and st.ret.same(0), "formula", name + ": no correspondences, no inliers", c.fn.where(), "%s" % st.ret)
            else:
                rep.check(isinstance(st.ret, R) and any(a in st.ret.vars() for a in accs) or (not accs), "formula", name + ": the count is returned", c.fn.where(), "returns %s" % st.ret)
    for n, hn, inv in (("nx_homography_mark_inliers", "h", False), ("nx_homography_mark_inliers_inv", "h_inv", True)):
        try:
            marks(Case(m, n), hn, inv)
        except Unsupported as e:
            rep.undecide(n, e)

    def cnt():
        n = "nx_point_match_2d_count_inliers"
        c = Case(m, n)
        r = c.p.iters[0]
        r["body_done"] = True
        for s, lv in zip(r["latch"], r["latch_vals"]):
            fl = [e for e, mm in s.cons if any(v.endswith(".is_inlier") for v in e.vars())]
            sg = sign_of(s, fl[0]) if fl else ALL
            for pid, nv in lv.items():
                if r["steps"][pid] is None:
                    d = nv - r["at"][pid]
                    rep.check(d.same(0) if sg == ZERO else d.same(1) if not sg & ZERO else False, "formula", n + ": counts set flags", c.fn.where(), "count changes by %s when %s" % (d.show(), guard_text(s)))
                else:
                    if isinstance(r["at"][pid], R):
                        err = covers(r, r["at"][pid], c.V("n_corr"))
                        rep.check(err is None, "every element visited", n, c.fn.where(), err or "")
    try:
        cnt()
    except (Unsupported, IndexError) as e:
        rep.undecide("nx_point_match_2d_count_inliers", e)

    # normalisation
    def Tn(c, mm, d):
        o, z = c.K(1), c.K(0)
        return [o / d, z, z, z, o / d, z, -mm[0] / d, -mm[1] / d, o]

    def Tinv(c, mm, d):
        o, z = c.K(1), c.K(0)
        return [d, z, z, z, d, z, mm[0], mm[1], o]

    def denh(c, st, eq):
        S = lambda p: c.V("stats." + p)
        h = c.arr("h", 9)
        e = mmul3(mmul3(Tinv(c, [S("mp[0]"), S("mp[1]")], S("dp")), h), Tn(c, [S("m[0]"), S("m[1]")], S("d")))
        for k in range(9):
            eq("T'^-1 H T [%d]" % k, c.out(st, "h", k, 8), e[k])
        c.only_writes(rep, st, {"h": 72})
    ck.kernel("nx_point_match_2d_stats_denormalize_homography", denh)

    def elem(name, f):
        try:
            c = Case(m, name)
            f(c, name)
        except (Unsupported, IndexError, KeyError) as e:
            rep.undecide(name, e)

    def fields_written(c, r, s):
        out = {}
        idxs = []
        for w in stores(r, s, "corr_list"):
            nm = c.p.symname("corr_list", w[1], w[2])
            pre, f = nm.rsplit(".", 1) if "." in nm else (nm, "")
            i = nm.index(".")
            pre, f = nm[:i] if "{" not in nm else nm[:nm.index("}") + 1], nm[nm.index("}.") + 2:] if "}." in nm else nm[i + 1:]
            out[f] = w[3]
            fo = w[1].n.cval() / w[1].d.cval()
            idxs.append(((w[1] - fo) / c.K(c.p.base_struct["corr_list"]["size"]), pre))
        return out, idxs

    def denm(c, name):
        r = c.p.iters[0]
        S = lambda p: c.V("stats." + p)
        for s in r["latch"] + r["exits"]:
            fw, idxs = fields_written(c, r, s)
            if not fw:
                continue
            F = lambda p: c.V("%s.%s" % (idxs[0][1], p))
            exp = {"x[0]": S("d") * F("x[0]") + S("m[0]"), "x[1]": S("d") * F("x[1]") + S("m[1]"),
                   "xp[0]": S("dp") * F("xp[0]") + S("mp[0]"), "xp[1]": S("dp") * F("xp[1]") + S("mp[1]"),
                   "sigma_x": S("d") * F("sigma_x"), "sigma_xp": S("dp") * F("sigma_xp")}
            rep.check(set(fw) == set(exp), "formula", name + ": fields restored", c.fn.where(), "fields written: %s" % sorted(fw))
            for f, e in exp.items():
                if f in fw:
                    rep.check(isinstance(fw[f], R) and fw[f].same(e), "formula", "%s: %s" % (name, f), c.fn.where(), "computes %s, definition is %s" % (fw[f], e.show()))
            err = covers(r, idxs[0][0], c.V("n_corr"))
            rep.check(err is None, "every element visited", name, c.fn.where(), err or "")
    elem("nx_point_match_2d_stats_denormalize_matches", denm)

    def normm(c, name):
        # in the loops that write correspondences: x' = x - m, then x' = x / d, sigma = sigma / d (inverse of denormalisation)
        seen = {}
        for r in c.p.iters:
            for s in r["latch"] + r["exits"]:
                fw, idxs = fields_written(c, r, s)
                for f, v in fw.items():
                    F = c.V("%s.%s" % (idxs[0][1], f))
                    side = "p" if "p" in f.split("[")[0].replace("sigma_x", "x") and f.replace("sigma_", "").startswith("xp") else ""
                    d = v - F if isinstance(v, R) else None
                    q = F / v if isinstance(v, R) and not v.same(0) else None
                    if d is not None and not mentions(d, F.show()) and not f.startswith("sigma"):
                        seen.setdefault((f, "shift"), []).append((d, r))
                    elif q is not None and f not in "":
                        seen.setdefault((f, "scale"), []).append((q, r))
                    err = covers(r, idxs[0][0], c.V("n_corr"))
                    rep.check(err is None, "every element visited", name, c.fn.where(), err or "")
        last = c.parts
        want_shift = {"x[0]": "stats.m[0]", "x[1]": "stats.m[1]", "xp[0]": "stats.mp[0]", "xp[1]": "stats.mp[1]"}
        want_scale = {"x[0]": "d", "x[1]": "d", "sigma_x": "d", "xp[0]": "dp", "xp[1]": "dp", "sigma_xp": "dp"}
        for f in want_shift:
            rep.check((f, "shift") in seen, "formula", "%s: %s is centred" % (name, f), c.fn.where(), "no centring of %s" % f)
        for f in want_scale:
            rep.check((f, "scale") in seen, "formula", "%s: %s is scaled" % (name, f), c.fn.where(), "no scaling of %s" % f)
        for grp in (("x[0]", "x[1]", "sigma_x"), ("xp[0]", "xp[1]", "sigma_xp")):
            qs = [q for f in grp for q, _ in seen.get((f, "scale"), [])]
            rep.check(all(q.same(qs[0]) for q in qs), "formula", "%s: one scale for %s" % (name, "/".join(grp)), c.fn.where(), "different scales: %s" % [q.show() for q in qs])
    elem("nx_point_match_2d_stats_normalize_matches", normm)

    # 4-point and DLT estimation: SVD / unit-square estimation are black boxes
    def unit_handler(p, i, st, a):
        n = "unit%d" % i.id
        xs = [p._load(st, st.mem.get(a[1].base), a[1].base, a[1].off + 8 * k, 8, "double") for k in range(8)]
        st.events.append(("unit", n, xs))
        for k in range(9):
            p.store(st, Ptr(a[0].base, a[0].off + 8 * k), 8, p.V("%s[%d]" % (n, k)))
        return p.V("det_" + n)

    def svd_handler(p, i, st, a):
        n = "svd%d" % i.id
        st.events.append(("svd", n, a))
        st.mem[a[0].base] = Entry("havoc", None, None, "U", st.mem.get(a[0].base))
        st.mem[a[2].base] = Entry("havoc", None, None, "S", st.mem.get(a[2].base))
        return None

    def fourpt(c, st, eq):
        ev = [e for e in st.events if e[0] == "unit"]
        name = c.fn.name[3:]
        side = {}
        for _, n, xs in ev:
            tag = None
            for f in ("x", "xp"):
                good = True
                for k in range(4):
                    cid = "corr_ids[%d]" % k
                    for d in (0, 1):
                        good = good and isinstance(xs[2 * k + d], R) and xs[2 * k + d].same(c.V("corr_list{%s}.%s[%d]" % (cid, f, d)))
                if good:
                    tag = f
            rep.check(tag is not None, "formula", name + ": corner points taken from the chosen correspondences", c.fn.where(), "%s" % [str(x) for x in xs])
            if tag:
                side[tag] = n
        w = c.written(st, "h")
        if not w:
            eq("degenerate sample reported", st.ret, 0)
            return
        if set(side) != {"x", "xp"}:
            return
        H = [c.out(st, "h", k, 8) for k in range(9)]
        hu, hup = [[c.V("%s[%d]" % (side[f], k)) for k in range(9)] for f in ("x", "xp")]
        P = mmul3(hup, H)
        # P must be proportional (equal up to one common factor) to hu
        bad = None
        for k in range(1, 9):
            if not (P[k] * hu[0]).same(P[0] * hu[k]):
                bad = k
        rep.check(bad is None, "formula", name + ": maps first-view corners onto second-view corners", c.fn.where(), "entry %s of H'^-1 H deviates" % bad)
        rep.check(any(not x.same(0) for x in P), "formula", name + ": the estimate is not the zero matrix", c.fn.where(), "H = 0 when %s" % guard_text(st))
        far = [v for v in loaded_names(c) if v.startswith("corr_ids") and v not in ["corr_ids[%d]" % k for k in range(4)] and v != "corr_ids"]
        rep.check(not far, "formula", name + ": four sample indices are read", c.fn.where(), "reads %s" % far)
        d = det3(hup)
        z = sign_of(st, d)
        rep.check(not z & ZERO, "formula", name + ": singular second-view map is refused", c.fn.where(), "inverts a possibly singular matrix (%s)" % guard_text(st))
    cko.kernel("nx_homography_estimate_4pt", fourpt, opaque={"nx_homography_estimate_unit": unit_handler})

    def dlt(c, name, inliers):
        done = False
        for st in c.parts:
            sv = [e for e in st.events if e[0] == "svd"]
            if not sv:
                ncon = [e for e, mm in st.cons if mm & NEG]
                rep.check(isinstance(st.ret, R) and st.ret.is_const() and st.ret.cval() > 10 ** 300, "formula", name + ": too few correspondences are reported", c.fn.where(), "returns %s" % st.ret)
                rep.check(not c.written(st, "h"), "formula", name + ": result untouched when refused", c.fn.where(), "writes the result")
                continue
            done = True
            a = sv[0][2]
            rep.check(isinstance(st.ret, R) and st.ret.show().endswith("~S"), "formula", name + ": residual is a singular value", c.fn.where(), "returns %s" % st.ret)
            rep.check(a[1].same(9) and a[3].same(9) and a[6].same(9), "formula", name + ": nine unknowns", c.fn.where(), "dimensions %s %s %s" % (a[1], a[3], a[6]))
            H = {}
            for k in range(9):
                o = c.out(st, "h", k, 8)
                H[o.show() if isinstance(o, R) else "?"] = k
            ub = a[0].base
            lay = []
            for r in range(9):
                k = H.get("%s[%d]~U" % (ub, 72 + r))
                lay.append(k)
            rep.check(None not in lay, "formula", name + ": solution is the last left singular vector", c.fn.where(), "layout %s" % lay)
            if None in lay:
                continue
            h = c.arr("hh", 9)
            rows = {}
            rec = None
            for r in c.p.iters:
                for s in r["latch"] + r["exits"]:
                    ws = stores(r, s, a[5].base)
                    if ws:
                        rec = (r, s, ws)
            if rec is None:
                rep.undecide(name, "no loop fills the design matrix")
                continue
            r, s, ws = rec
            base = min((w[1] for w in ws), key=lambda o: o.n.cval())
            cells = {}
            for w in ws:
                o = (w[1] - base)
                if not o.is_const():
                    rep.undecide(name, "design matrix addressing")
                    return
                cells[int(o.cval()) // 8] = w[3]
            rep.check(sorted(cells) == list(range(18)), "formula", name + ": two full rows per correspondence", c.fn.where(), "cells %s" % sorted(cells))
            if sorted(cells) != list(range(18)):
                return
            pre = None
            for v in cells.values():
                for x in v.vars():
                    if x.startswith("corr_list"):
                        pre = x[:x.index("}") + 1] if "{" in x else "corr_list"
            F = lambda p: c.V("%s.%s" % (pre, p))
            Hm = [h[0] * F("x[0]") + h[3] * F("x[1]") + h[6], h[1] * F("x[0]") + h[4] * F("x[1]") + h[7], h[2] * F("x[0]") + h[5] * F("x[1]") + h[8]]
            e1 = Hm[1] - F("xp[1]") * Hm[2]
            e2 = Hm[0] - F("xp[0]") * Hm[2]
            got = []
            for row in range(2):
                v = c.K(0)
                for q in range(9):
                    v = v + cells[9 * row + q] * h[lay[q]]
                got.append(1 if v.ratio(e1) else 2 if v.ratio(e2) else 0)
            rep.check(sorted(got) == [1, 2], "formula", name + ": rows are the two incidence equations of x' ~ H x", c.fn.where(), "rows match equations %s" % got)
            # number of columns passed = 2 * number of correspondences used
            step = [x for x in r["phis"] if isinstance(r["at"][x], Ptr) and r["at"][x].base == a[5].base]
            n = a[4]
            if not inliers:
                err = None
                for x in r["phis"]:
                    if isinstance(r["at"][x], R) and r["steps"][x] is not None and r["steps"][x].is_const() and r["steps"][x].cval() in (1, -1):
                        err = covers(r, r["at"][x], c.V("n_corr"))
                rep.check(err is None, "every element visited", name, c.fn.where(), err or "")
                rep.check(n.same(c.V("n_corr") * 2), "formula", name + ": all rows are used", c.fn.where(), "row count %s" % n.show())
            else:
                for s2, lv in zip(r["latch"], r["latch_vals"]):
                    fl = [e for e, mm in s2.cons if any(v.endswith(".is_inlier") for v in e.vars()) and mentions(e, next(iter(r["k"].vars())))]
                    sg = sign_of(s2, fl[0]) if fl else ALL
                    wrote = bool(stores(r, s2, a[5].base))
                    rep.check(wrote == (not sg & ZERO), "formula", name + ": exactly the inliers contribute rows", c.fn.where(), "rows written: %s when %s" % (wrote, guard_text(s2)))
        rep.check(done, "formula", name + ": reaches the solver", c.fn.where(), "solver never called")
    for n, inl in (("nx_homography_estimate_dlt", False), ("nx_homography_estimate_dlt_inliers", True)):
        try:
            dlt(Case(mo, n, opaque={"nx_dsvd_us": svd_handler}), n, inl)
        except Unsupported as e:
            rep.undecide(n, e)

    def terr(name, inv):
        def inv_handler(p, i, st, a):
            if a[1].base != "h" or not a[1].off.same(0):
                raise Unsupported("inverse of something else")
            for k in range(9):
                p.store(st, Ptr(a[0].base, a[0].off + 8 * k), 8, p.V("hinv[%d]" % k))
            return p.V("det_h")
        c = Case(mi, name, opaque={"nx_dmat3_inv": inv_handler}) if inv else Case(m, name)
        H = c.arr("h", 9)
        if inv:
            ad, d = c.arr("hinv", 9), c.V("det_h")
        for r in c.p.iters:
            for s, lv in zip(r["latch"], r["latch_vals"]):
                fl = [e for e, mm in s.cons if any(v.endswith(".is_inlier") for v in e.vars())]
                sg = sign_of(s, fl[0]) if fl else ALL
                for pid, nv in lv.items():
                    if r["steps"][pid] is not None or not isinstance(nv, R):
                        continue
                    dlt_ = nv - r["at"][pid]
                    if sg == ZERO:
                        rep.check(dlt_.same(0), "formula", name + ": outliers do not contribute", c.fn.where(), "adds %s" % dlt_.show())
                    elif dlt_.is_const():
                        rep.check(dlt_.same(1), "formula", name + ": each inlier is counted once", c.fn.where(), "adds %s" % dlt_.show())
                    else:
                        pre = [v for v in fl[0].vars() if v.endswith(".is_inlier")][0][:-len(".is_inlier")]
                        F = lambda p: c.V("%s.%s" % (pre, p))
                        a, b = ("xp", "x") if inv else ("x", "xp")
                        if inv:
                            if sign_of(s, d) == ZERO:
                                continue
                            u, v, w = transfer(ad, F(a + "[0]"), F(a + "[1]"))
                        else:
                            u, v, w = transfer(H, F(a + "[0]"), F(a + "[1]"))
                        e2 = (u - F(b + "[0]")) ** 2 + (v - F(b + "[1]")) ** 2
                        good = dlt_.same(fsqrt(c.ctx, e2))
                        rep.check(good, "formula", name + ": adds the transfer distance", c.fn.where(), "adds %s" % dlt_.show()[:300])
    for n, inv in (("nx_homography_transfer_error_fwd", False), ("nx_homography_transfer_error_bwd", True)):
        try:
            terr(n, inv)
        except Unsupported as e:
            rep.undecide(n, e)
    hcheck(rep, m)
    sized(rep, m, mi)
    dlt_sized(rep, mo)
    rep.need("formula", 110)


def loaded_names(c):
    """input cells whose value was read anywhere in the analysed function"""
    return getattr(c.p, "read_names", set())


def hcheck(rep, m):
    """nx_homography_check: accepts h exactly when the image of the square (+-1, +-1) keeps its orientation and the
    (true) cosine between the images of its diagonals is at most the limit; decided on the guarded normal forms"""
    import random
    name = "nx_homography_check"
    # three symbolic families of maps that together exercise every entry of h
    full = {0: 2, 1: Fraction(1, 7), 2: Fraction(1, 10), 3: Fraction(-2, 9), 4: 3, 5: Fraction(-1, 8), 6: Fraction(3, 5), 7: Fraction(-4, 3), 8: 1}
    free = lambda *ks: {k: v for k, v in full.items() if k not in ks}
    fams = {"affine": {2: 0, 5: 0, 8: 1}, "x perspective": free(2), "y perspective": free(5), "scaled": free(8), "shifted": free(6, 7)}
    for fam, fixed in fams.items():
        inst = "%s (%s maps)" % (name, fam)

        def init(p, st, fixed=fixed):
            for k, v in fixed.items():
                p.store(st, Ptr("h", p.K(8 * k)), 8, p.K(v))
        try:
            c = Case(m, name, init=init)
        except Unsupported as e:
            rep.undecide(inst, e)
            continue
        rnd = random.Random(3)
        n = used = 0
        bad = None
        seen = set()
        while n < 600:
            n += 1
            sc = Fraction(rnd.choice((1, 3, 20, 100)), rnd.choice((1, 5, 40)))
            h = [Fraction(rnd.randint(-60, 60), 40) * sc for _ in range(9)]
            if n % 3:
                for k in (0, 4):
                    h[k] += sc * 2
            h[2], h[5] = Fraction(rnd.randint(-30, 30), 100), Fraction(rnd.randint(-30, 30), 100)
            h[8] = Fraction(rnd.randint(5, 40), 10)
            for k, v in fixed.items():
                h[k] = Fraction(v)
            lim = Fraction(rnd.randint(1, 99), 100)
            pt = {}
            for nm, (x, y) in {"A": (-1, -1), "B": (1, -1), "C": (1, 1), "D": (-1, 1)}.items():
                w = h[2] * x + h[5] * y + h[8]
                if w == 0:
                    break
                pt[nm] = ((h[0] * x + h[3] * y + h[6]) / w, (h[1] * x + h[4] * y + h[7]) / w)
            if len(pt) < 4:
                continue
            A, B, C, D = (pt[k] for k in "ABCD")
            side = lambda P: (C[1] - A[1]) * (P[0] - A[0]) + (A[0] - C[0]) * (P[1] - A[1])
            ac, bd = (C[0] - A[0], C[1] - A[1]), (B[0] - D[0], B[1] - D[1])
            q = (ac[0] ** 2 + ac[1] ** 2) * (bd[0] ** 2 + bd[1] ** 2)
            if q == 0 or side(B) == 0 or side(D) == 0:
                continue
            cc = (ac[0] * bd[0] + ac[1] * bd[1]) ** 2 / q
            if abs(cc - lim ** 2) < Fraction(1, 1000):
                continue
            want = 1 if side(B) > 0 and side(D) < 0 and cc <= lim ** 2 else 0
            env = {sym(c, "h[%d]" % k): h[k] for k in range(9)}
            env[sym(c, "max_abs_cos")] = lim
            got = set()
            try:
                for st in c.parts:
                    ok = True
                    for e, mk in st.cons:
                        v = kval(c.ctx, e, env)
                        if not ((ZERO if v == 0 else POS if v > 0 else NEG) & mk):
                            ok = False
                            break
                    if ok:
                        got.add(kval(c.ctx, st.ret, env) if isinstance(st.ret, R) else None)
            except (ZeroDivisionError, KeyError, ValueError) as e:
                continue
            used += 1
            seen.add(want)
            if got != {want}:
                bad = bad or "for h = %s and limit %s the result is %s, the definition gives %d" % ([str(x) for x in h], lim, [str(g) for g in got], want)
        if used < 100 or seen != {0, 1}:
            rep.undecide(inst, "decisions could not be evaluated (%d usable, %s)" % (used, seen))
            continue
        rep.check(bad is None, "formula", inst + ": square keeps its orientation and its diagonals their angle", c.fn.where(), bad or "")


def sym(c, n):
    return next(iter(c.V(n).syms()))


def kval(ctx, e, env):
    from vlib.kern import _val
    import random
    for s in e.syms():
        if s not in env and ctx.appinfo.get(s) is None:
            raise KeyError(s)
    return _val(ctx, e, env, random.Random(1), set())


def dlt_sized(rep, mo):
    """four and five correspondences: the complete design matrix handed to the solver"""
    from vlib.poly import Ctx
    from checks.p04 import flags, rec, solved

    def svd(p, i, st, a):
        st.events.append(("us", i.id, a, {a[5].base: st.mem.get(a[5].base)}))
        st.mem[a[0].base] = Entry("havoc", None, None, "U", st.mem.get(a[0].base))
        st.mem[a[2].base] = Entry("havoc", None, None, "S", st.mem.get(a[2].base))
    for name, conf in (("nx_homography_estimate_dlt", [(4, None), (5, None)]), ("nx_homography_estimate_dlt_inliers", [(5, (1, 0, 1, 1, 1)), (6, (1, 1, 1, 1, 0, 1))])):
        for n, fl in conf:
            inst = "%s, %d correspondences%s" % (name, n, "" if fl is None else " (flags %s)" % "".join(map(str, fl)))
            try:
                ctx = Ctx()
                c = Case(mo, name, ctx=ctx, unroll=True, distinct=True, opaque={"nx_dsvd_us": svd}, argvals={1: R.const(ctx, n)}, init=(lambda p, st: flags(p, st, fl)) if fl else None)
                for st in c.parts:
                    # position of each entry of h in the solution vector
                    ev = [e for e in st.events if e[0] == "us"]
                    if not ev:
                        rep.check(False, "formula", inst + ": solved", c.fn.where(), "the solver is not called")
                        continue
                    ub = ev[0][2][0].base
                    H = {}
                    for k in range(9):
                        o = c.out(st, "h", k, 8)
                        H[o.show() if isinstance(o, R) else "?"] = k
                    lay = [H.get("%s[%d]~U" % (ub, 72 + r)) for r in range(9)]
                    if None in lay:
                        rep.undecide(inst, "solution layout")
                        continue

                    def rows(k, h):
                        if h is None:
                            return [0, 0]
                        F = lambda p: c.V("%s.%s" % (rec(k), p))
                        hm = [None] * 9
                        for q in range(9):
                            hm[lay[q]] = h[q]
                        Hm = [hm[d] * F("x[0]") + hm[d + 3] * F("x[1]") + hm[d + 6] for d in range(3)]
                        return [Hm[0] - F("xp[0]") * Hm[2], Hm[1] - F("xp[1]") * Hm[2]]
                    solved(rep, "formula", c, st, inst, 9, [k for k in range(n) if fl is None or fl[k]], rows)
            except (Unsupported, KeyError) as e:
                rep.undecide(inst, e)


def sized(rep, m, mi):
    """lists of one and two correspondences with symbolic contents: complete results"""
    from vlib.poly import Ctx

    def inv_handler(p, i, st, a):
        if a[1].base != "h" or not a[1].off.same(0):
            raise Unsupported("inverse of something else")
        for k in range(9):
            p.store(st, Ptr(a[0].base, a[0].off + 8 * k), 8, p.V("hinv[%d]" % k))
        return p.V("det_h")

    def rec(c, k):
        pre = "corr_list" + ("{%d}" % k if k else "")
        return lambda f: c.V("%s.%s" % (pre, f))

    for name, mod, inv in (("nx_homography_transfer_error_fwd", m, False), ("nx_homography_transfer_error_bwd", mi, True)):
        for n in (1, 2):
            inst = "%s, %d correspondences" % (name, n)
            try:
                ctx = Ctx()
                c = Case(mod, name, ctx=ctx, unroll=True, argvals={1: R.const(ctx, n)}, opaque={"nx_dmat3_inv": inv_handler} if inv else None)
                H = c.arr("hinv" if inv else "h", 9)
                a, b = ("xp", "x") if inv else ("x", "xp")
                for st in c.parts:
                    tot, cnt, dec = c.K(0), 0, True
                    for k in range(n):
                        F = rec(c, k)
                        sg = sign_of(st, F("is_inlier"))
                        if not sg & ZERO:
                            u, v, w = transfer(H, F(a + "[0]"), F(a + "[1]"))
                            tot = tot + fsqrt(c.ctx, (u - F(b + "[0]")) ** 2 + (v - F(b + "[1]")) ** 2)
                            cnt += 1
                        elif sg != ZERO:
                            dec = False
                    if not dec:
                        rep.undecide(inst, "result independent of a flag")
                        continue
                    if cnt:
                        good = isinstance(st.ret, R) and st.ret.same(tot / c.K(cnt))
                        if not good and isinstance(st.ret, R) and differ(c.ctx, st.ret, tot / c.K(cnt), st.cons) is False:
                            rep.undecide(inst, "another form")
                            continue
                        rep.check(good, "formula", inst + ": mean transfer distance of the inliers", c.fn.where(), "returns %s when %s" % (st.ret, guard_text(st)))
            except (Unsupported, ZeroDivisionError) as e:
                rep.undecide(inst, e)

    name = "nx_point_match_2d_stats_normalize_matches"
    for n in (2,):
        inst = "%s, %d correspondences" % (name, n)
        try:
            ctx = Ctx()
            c = Case(m, name, ctx=ctx, unroll=True, argvals={1: R.const(ctx, n)})
            off = {f: o for f, o in (("x", 0), ("xp", 8), ("sigma_x", 20), ("sigma_xp", 24))}
            S = c.p.base_struct["corr_list"]["size"] if "corr_list" in c.p.base_struct else 56
            for st in c.parts:
                for pt, sg, (mo, do) in (("x", "sigma_x", (0, 32)), ("xp", "sigma_xp", (16, 40))):
                    X = [[rec(c, k)("%s[%d]" % (pt, d)) for d in (0, 1)] for k in range(n)]
                    mean = [(X[0][d] + X[1][d]) / c.K(n) for d in (0, 1)]
                    dist = c.K(0)
                    for k in range(n):
                        dist = dist + fsqrt(c.ctx, (X[k][0] - mean[0]) ** 2 + (X[k][1] - mean[1]) ** 2)
                    dist = dist / c.K(n)
                    cells = [(c.out(st, "stats", (mo + 8 * d) // 8, 8), mean[d], "mean %s[%d]" % (pt, d)) for d in (0, 1)]
                    cells.append((c.out(st, "stats", do // 8, 8), dist, "mean distance of %s" % pt))
                    for k in range(n):
                        for d in (0, 1):
                            cells.append((c.outat(st, "corr_list", k * S + off[pt] + 4 * d, 4, "float"), (X[k][d] - mean[d]) / dist, "%s[%d] of %d" % (pt, d, k)))
                        cells.append((c.outat(st, "corr_list", k * S + off[sg], 4, "float"), rec(c, k)(sg) / dist, "%s of %d" % (sg, k)))
                    for got, want, what in cells:
                        good = isinstance(got, R) and got.same(want)
                        if not good and isinstance(got, R) and differ(c.ctx, got, want, st.cons) is False:
                            rep.undecide(inst, "another form of %s" % what)
                            continue
                        rep.check(good, "formula", inst + ": " + what, c.fn.where(), "is %s, the definition is %s" % (str(got)[:300], want.show()[:300]))
        except (Unsupported, ZeroDivisionError) as e:
            rep.undecide(inst, e)
    name = "nx_point_match_2d_stats_reset"
    try:
        c = Case(m, name)
        for st in c.parts:
            for k, w in enumerate((0, 0, 0, 0, 1, 1)):
                got = c.out(st, "stats", k, 8)
                rep.check(isinstance(got, R) and got.same(w), "formula", name + ": identity normalisation", c.fn.where(), "entry %d is %s" % (k, got))
    except Unsupported as e:
        rep.undecide(name, e)
