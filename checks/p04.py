"""Two-view and camera geometry obeys its defining equations."""
from vlib.kern import *

LEVEL = "proof"
PLAIN = """nx_fundamental_epipolar_distance_fwd nx_fundamental_mark_inliers nx_essential_from_fundamental nx_essential_from_Rt
nx_pinhole_projection_from_krt nx_pinhole_project nx_pinhole_project_h nx_point_match_2d_stats_denormalize_fundamental""".split()
OPQ = ["nx_fundamental_estimate_8pt", "nx_fundamental_estimate", "nx_fundamental_estimate_inliers",
       "nx_essential_decompose_to_Rt", "nx_pinhole_triangulate"]


def run(rep):
    m = kernels([(n, n, None) for n in PLAIN])
    mo = kernels([(n, n, None) for n in OPQ], opaque=["nx_dsvd_us", "nx_dsvd_usvt"], name="kern_o")
    ck, cko = Checker(rep, m), Checker(rep, mo)
    rep.analysed = {"kernels": len(PLAIN) + len(OPQ), "functions": len(m.defined()) + len(mo.defined())}
    rep.assumptions = ["real-arithmetic semantics: floating-point rounding and overflow are not modelled",
                       "distinct pointer arguments do not overlap", "array loops are checked for a generic iteration",
                       "the SVD routine returns a singular value decomposition (black box)"]

    def line(c, F, pre):
        x, y = c.V(pre + ".x[0]"), c.V(pre + ".x[1]")
        xp, yp = c.V(pre + ".xp[0]"), c.V(pre + ".xp[1]")
        l = mvec(F, [x, y, c.K(1)])
        return l, l[0] * xp + l[1] * yp + l[2]

    def dist(c, st, eq):
        l, num = line(c, c.arr("F", 9), "pm")
        n = fsqrt(c.ctx, l[0] * l[0] + l[1] * l[1])
        s = sign_of(st, num / n)
        if s == ALL:
            s = sign_of(st, num)
        if s == NEG:
            eq("distance", st.ret, -num / n)
        elif not s & NEG:
            eq("distance", st.ret, num / n)
        else:
            rep.violate("formula", "nx_fundamental_epipolar_distance_fwd: distance", c.fn.where(), "not an absolute value: %s" % st.ret)
        c.only_writes(rep, st, {})
    ck.kernel("nx_fundamental_epipolar_distance_fwd", dist)

    def marks():
        name = "nx_fundamental_mark_inliers"
        c = Case(m, name)
        recs = [r for r in c.p.iters if r["depth"] == 0]
        if len(recs) != 1:
            rep.undecide(name, "expected one loop")
            return
        r = recs[0]
        tol = c.V("inlier_tolerance")
        for kind, s, lv in [("latch", s, v) for s, v in zip(r["latch"], r["latch_vals"])] + [("exit", s, None) for s in r["exits"]]:
            ws = stores(r, s)
            if kind == "exit" and not ws:
                continue
            ok = len(ws) == 1 and ws[0][0] == "corr_list"
            rep.check(ok, "formula", name + ": one flag written per correspondence", c.fn.where(), "%s" % ws)
            if not ok:
                continue
            nm = c.p.symname("corr_list", ws[0][1], 4)
            rep.check(nm.endswith(".is_inlier"), "formula", name + ": the flag field is written", c.fn.where(), nm)
            pre = nm[:-len(".is_inlier")]
            l, num = line(c, c.arr("F", 9), pre)
            n = fsqrt(c.ctx, l[0] * l[0] + l[1] * l[1])
            q = num / n
            sgn = sign_of(s, q)
            if sgn == ALL:
                sgn = sign_of(s, num)
            d = -q if sgn == NEG else q
            sg = sign_of(s, d - tol)
            v = ws[0][3]
            good = isinstance(v, R) and v.is_const() and ((sg == NEG and v.cval() == 1) or (not sg & NEG and v.cval() == 0)) and sgn != ALL
            rep.check(good, "formula", name + ": flag is 'epipolar distance below tolerance'", c.fn.where(), "flag %s when %s" % (v, guard_text(s)))
            idx = (ws[0][1] - ws[0][1].n.cval()) / c.K(c.p.base_struct["corr_list"]["size"])
            err = covers(r, idx, c.V("n_corr"))
            rep.check(err is None, "every element visited", name, c.fn.where(), err or "")
            if kind == "latch":
                for pid, nv in lv.items():
                    if r["steps"][pid] is None and isinstance(nv, R):
                        rep.check((nv - r["at"][pid]).same(v), "formula", name + ": the count grows by the flag", c.fn.where(), "by %s" % (nv - r["at"][pid]).show())
                        rep.check(r["entry"][pid].same(0), "formula", name + ": the count starts at zero", c.fn.where(), "%s" % r["entry"][pid])
    try:
        marks()
    except Unsupported as e:
        rep.undecide("nx_fundamental_mark_inliers", e)

    def up(c, n):
        """upper-triangular calibration matrix with unit last entry, column major"""
        v = c.arr(n, 9)
        return [v[0], c.K(0), c.K(0), v[3], v[4], c.K(0), v[6], v[7], c.K(1)]

    def essF(c, st, eq):
        # E = K'^T F K; the code may read only part of K: compare for K upper triangular with last entry 1
        e = mmul3(mmul3(transpose(up(c, "Kp")), c.arr("F", 9)), up(c, "K"))
        z = {"K[1]": c.K(0), "K[2]": c.K(0), "K[5]": c.K(0), "K[8]": c.K(1), "Kp[1]": c.K(0), "Kp[2]": c.K(0), "Kp[5]": c.K(0), "Kp[8]": c.K(1)}
        for k in range(9):
            o = c.out(st, "E", k, 8)
            eq("K'^T F K [%d]" % k, o.subst(z) if isinstance(o, R) else o, e[k])
        c.only_writes(rep, st, {"E": 72})
    ck.kernel("nx_essential_from_fundamental", essF)

    def essR(c, st, eq):
        t, z = c.arr("t", 3), c.K(0)
        tx = [z, t[2], -t[1], -t[2], z, t[0], t[1], -t[0], z]
        e = mmul3(tx, c.arr("R", 9))
        for k in range(9):
            eq("[t]x R [%d]" % k, c.out(st, "E", k, 8), e[k])
        c.only_writes(rep, st, {"E": 72})
    ck.kernel("nx_essential_from_Rt", essR)

    def krt(c, st, eq):
        nul = {n: sign_of(st, c.V("nonnull:" + n)) == ZERO for n in "KRt"}
        I = [c.K(1 if k % 4 == 0 else 0) for k in range(9)]
        K = I if nul["K"] else up(c, "K")
        Rm = I if nul["R"] else c.arr("R", 9)
        t = [c.K(0)] * 3 if nul["t"] else c.arr("t", 3)
        z = {"K[1]": c.K(0), "K[2]": c.K(0), "K[5]": c.K(0), "K[8]": c.K(1)}
        e = mmul3(K, Rm) + mvec(K, t)
        for k in range(12):
            o = c.out(st, "P", k, 8)
            eq("K [R|t] [%d]" % k, o.subst(z) if isinstance(o, R) else o, e[k])
        c.only_writes(rep, st, {"P": 96})
    ck.kernel("nx_pinhole_projection_from_krt", krt)

    def proj(name, hom):
        c = Case(m, name)
        P = c.arr("P", 12)
        r = c.p.iters[0]
        si, so = (4, 3) if hom else (3, 2)
        ib, ob = ("Xh", "xh") if hom else ("X", "x")
        for s in r["latch"] + r["exits"]:
            ws = stores(r, s)
            if not ws:
                continue
            rep.check(len(ws) == so and all(w[0] == ob for w in ws), "formula", name + ": one image point per space point", c.fn.where(), "%s" % [w[:2] for w in ws])
            base = min((w[1] for w in ws), key=lambda o: o.n.cval())
            idx = base / c.K(4 * so)
            X = [c.V("%s[%s]" % (ib, (idx * si + k).show())) for k in range(si)]
            if not hom:
                X.append(c.K(1))
            y = [P[k] * X[0] + P[k + 3] * X[1] + P[k + 6] * X[2] + P[k + 9] * X[3] for k in range(3)]
            for w in ws:
                d = w[1] - base
                k = int(d.cval()) // 4 if d.is_const() else -1
                if k not in range(so):
                    continue
                e = y[k] if hom else y[k] / y[2]
                rep.check(isinstance(w[3], R) and w[3].same(e), "formula", "%s: coordinate %d" % (name, k), c.fn.where(), "computes %s, definition %s" % (w[3], e.show()))
            err = covers(r, idx, c.V("n"))
            rep.check(err is None, "every element visited", name, c.fn.where(), err or "")
        if not hom:
            for s, lv in zip(r["latch"], r["latch_vals"]):
                X = None
                for pid, nv in lv.items():
                    if r["steps"][pid] is None and isinstance(nv, R):
                        a = r["at"][pid]
                        # running minimum of |depth|
                        kk = r["k"]
                        X = [c.V("X[%s]" % (kk * 3 + k).show()) for k in range(3)]
                        w = P[2] * X[0] + P[5] * X[1] + P[8] * X[2] + P[11]
                        sw = sign_of(s, w)
                        aw = -w if sw == NEG else w
                        sc = sign_of(s, a - aw)
                        good = (nv.same(aw) and not sc & NEG) or (nv.same(a) and not sc & POS)
                        rep.check(good and sw != ALL, "formula", name + ": least |depth| is tracked", c.fn.where(), "becomes %s when %s" % (nv, guard_text(s)))
    for n, h in (("nx_pinhole_project", False), ("nx_pinhole_project_h", True)):
        try:
            proj(n, h)
        except (Unsupported, IndexError) as e:
            rep.undecide(n, e)

    def denF(c, st, eq):
        S = lambda p: c.V("stats." + p)
        o, z = c.K(1), c.K(0)

        def T(mm, d):
            return [o / d, z, z, z, o / d, z, -S(mm + "[0]") / d, -S(mm + "[1]") / d, o]
        e = mmul3(mmul3(transpose(T("mp", S("dp"))), c.arr("f", 9)), T("m", S("d")))
        for k in range(9):
            eq("T'^T F T [%d]" % k, c.out(st, "f", k, 8), e[k])
        c.only_writes(rep, st, {"f": 72})
    ck.kernel("nx_point_match_2d_stats_denormalize_fundamental", denF)

    # ---- estimation with the SVD as a black box
    def us(p, i, st, a):
        st.events.append(("us", i.id, a, {b: st.mem.get(b) for b in (a[5].base,)}))
        st.mem[a[0].base] = Entry("havoc", None, None, "U", None)
        st.mem[a[2].base] = Entry("havoc", None, None, "S", None)
        return None

    def usvt(p, i, st, a):
        A = [p._load(st, st.mem.get(a[7].base), a[7].base, a[7].off + 8 * k, 8, "double") for k in range(9)]
        st.events.append(("usvt", i.id, a, A))
        for nm, ptr, n in (("sU", a[0], 9), ("sS", a[2], 3), ("sV", a[3], 9)):
            for k in range(n):
                p.store(st, Ptr(ptr.base, ptr.off + 8 * k), 8, p.V("%s[%d]" % (nm, k)))
        return None
    H = {"nx_dsvd_us": us, "nx_dsvd_usvt": usvt}

    def fund(name, kind):
        c = Case(mo, name, opaque=H)
        reached = False
        for st in c.parts:
            e1 = [e for e in st.events if e[0] == "us"]
            e2 = [e for e in st.events if e[0] == "usvt"]
            if not e1:
                rep.check(isinstance(st.ret, R) and st.ret.is_const() and st.ret.cval() > 10 ** 300, "formula", name + ": too few correspondences are reported", c.fn.where(), "returns %s" % st.ret)
                rep.check(not c.written(st, "F"), "formula", name + ": result untouched when refused", c.fn.where(), "writes the result")
                continue
            reached = True
            rep.check(len(e2) == 1, "formula", name + ": rank is corrected once", c.fn.where(), "%d rank corrections" % len(e2))
            if len(e2) != 1:
                continue
            a = e1[0][2]
            rep.check(a[1].same(9) and a[3].same(9) and a[6].same(9), "formula", name + ": nine unknowns", c.fn.where(), "dimensions")
            lay = {}
            for k, o in enumerate(e2[0][3]):
                lay[o.show() if isinstance(o, R) else "?"] = k
            L = [lay.get("%s[%d]~U" % (a[0].base, 72 + r)) for r in range(9)]
            rep.check(None not in L, "formula", name + ": rank correction is applied to the last left singular vector", c.fn.where(), "layout %s" % L)
            rep.check(isinstance(st.ret, R) and st.ret.show() == "%s[8]~S" % a[2].base, "formula", name + ": residual is the smallest singular value", c.fn.where(), "returns %s" % st.ret)
            U, S, V = c.arr("sU", 9), c.arr("sS", 3), c.arr("sV", 9)
            D = [c.K(0)] * 9
            D[0], D[4] = S[0], S[1]
            E = mmul3(mmul3(U, D), V)
            for k in range(9):
                o = c.out(st, "F", k, 8)
                rep.check(isinstance(o, R) and o.same(E[k]), "formula", "%s: U diag(s0,s1,0) V^T [%d]" % (name, k), c.fn.where(), "computes %s" % o)
            if None in L:
                continue
            # constraint rows
            h = c.arr("ff", 9)
            if kind == "8pt":
                mem = e1[0][3][a[5].base]
                for row in range(8):
                    v = c.K(0)
                    for q in range(9):
                        v = v + c.p._load(st, mem, a[5].base, a[5].off + 8 * (9 * row + q), 8, "double") * h[L[q]]
                    pre = "corr_list{corr_ids[%d]}" % row
                    l, num = line(c, h, pre)
                    rep.check(bool(v.ratio(num)), "formula", name + ": row is the epipolar equation of its correspondence", c.fn.where(), "row %d is %s" % (row, v.show()[:200]))
                rep.check(a[4].same(8), "formula", name + ": all rows are used", c.fn.where(), "row count %s" % a[4].show())
                continue
            for r in c.p.iters:
                for s in r["latch"] + r["exits"]:
                    ws = stores(r, s, a[5].base)
                    if not ws:
                        continue
                    base = min((w[1] for w in ws), key=lambda o: o.n.cval())
                    cells = {int((w[1] - base).cval()) // 8: w[3] for w in ws}
                    if sorted(cells) != list(range(9)):
                        rep.violate("formula", name + ": one full row per correspondence", c.fn.where(), "cells %s" % sorted(cells))
                        continue
                    pre = None
                    for v in cells.values():
                        for x in v.vars():
                            if x.startswith("corr_list"):
                                pre = x[:x.index("}") + 1] if "{" in x else "corr_list"
                    v = c.K(0)
                    for q in range(9):
                        v = v + cells[q] * h[L[q]]
                    l, num = line(c, h, pre)
                    rep.check(bool(v.ratio(num)), "formula", name + ": row is the epipolar equation of its correspondence", c.fn.where(), "row is %s" % v.show()[:200])
                    if kind == "all":
                        i = [r["at"][x] for x in r["phis"] if isinstance(r["at"][x], R) and r["steps"][x] is not None and r["steps"][x].is_const() and abs(r["steps"][x].cval()) == 1]
                        err = covers(r, i[0], c.V("n_corr")) if i else "no counter"
                        rep.check(err is None, "every element visited", name, c.fn.where(), err or "")
                if kind == "inliers" and any(stores(r, s, a[5].base) for s in r["latch"] + r["exits"]):
                    for s in r["latch"]:
                        fl = [e for e, mm in s.cons if any(v.endswith(".is_inlier") for v in e.vars()) and mentions(e, next(iter(r["k"].vars())))]
                        sg = sign_of(s, fl[0]) if fl else ALL
                        wrote = bool(stores(r, s, a[5].base))
                        rep.check(wrote == (not sg & ZERO), "formula", name + ": exactly the inliers contribute rows", c.fn.where(), "rows written: %s when %s" % (wrote, guard_text(s)))
            if kind == "all":
                rep.check(a[4].same(c.V("n_corr")), "formula", name + ": all rows are used", c.fn.where(), "row count %s" % a[4].show())
        rep.check(reached, "formula", name + ": reaches the solver", c.fn.where(), "never")
    for n, k in (("nx_fundamental_estimate_8pt", "8pt"), ("nx_fundamental_estimate", "all"), ("nx_fundamental_estimate_inliers", "inliers")):
        try:
            fund(n, k)
        except Unsupported as e:
            rep.undecide(n, e)

    def decomp(c, st, eq):
        name = c.fn.name[3:]
        U, S, V = c.arr("sU", 9), c.arr("sS", 3), c.arr("sV", 9)
        ev = [e for e in st.events if e[0] == "usvt"]
        rep.check(len(ev) == 1 and all(isinstance(o, R) and o.same(c.V("E[%d]" % k)) for k, o in enumerate(ev[0][3])), "formula", name + ": decomposes E", c.fn.where(), "SVD of something else")
        sU = sign_of(st, det3(U))
        sV = sign_of(st, det3(V))
        su = -1 if sU == NEG else 1
        sv = -1 if sV == NEG else 1
        if sU in (ALL, NEG | ZERO, NEG | POS) or sV in (ALL, NEG | ZERO, NEG | POS):
            # reflections must be removed: sign of both determinants has to be decided
            rep.violate("formula", name + ": reflections are removed", c.fn.where(), "determinant sign not examined (%s)" % guard_text(st))
            return
        z, o = c.K(0), c.K(1)
        W = [z, o, z, -o, z, z, z, z, o]
        cand = []
        for w in (W, transpose(W)):
            M = mmul3(mmul3(U, w), V)
            cand.append([x * (su * sv) for x in M])
        seen = []
        for i in range(4):
            bR, bt = "*R[%d]" % i, "*t[%d]" % i
            Ri = [c.out(st, bR, k, 8) for k in range(9)]
            ti = [c.out(st, bt, k, 8) for k in range(3)]
            w = [j for j in range(2) if all(isinstance(a, R) and a.same(b) for a, b in zip(Ri, cand[j]))]
            s = [g for g in (1, -1) if all(isinstance(a, R) and a.same(U[6 + k] * g) for k, a in enumerate(ti))]
            rep.check(len(w) == 1, "formula", "%s: rotation %d is U W V^T with reflections removed" % (name, i), c.fn.where(), "%s" % [str(x)[:60] for x in Ri])
            rep.check(len(s) == 1, "formula", "%s: translation %d is the left null vector" % (name, i), c.fn.where(), "%s" % ti)
            if w and s:
                seen.append((w[0], s[0]))
        rep.check(len(set(seen)) == 4, "formula", name + ": the four solutions are distinct", c.fn.where(), "%s" % seen)
        eq("residual singular value", st.ret, S[2])
    cko.kernel("nx_essential_decompose_to_Rt", decomp, opaque=H)

    def tri():
        name = "nx_pinhole_triangulate"
        c = Case(mo, name, opaque=H)
        loops = [r for r in c.p.iters if any(e[0] == "us" for s in r["latch"] + r["exits"] for e in s.events)]
        if not loops:
            rep.undecide(name, "no loop solves for points")
            return
        for r in loops:
            tri1(c, name, r)

    def tri1(c, name, r):
        P = [c.arr("P0", 12), c.arr("P1", 12)]
        X = [c.V("XX[%d]" % k) for k in range(4)]
        kn = next(iter(r["k"].vars()))
        for s in r["latch"] + r["exits"]:
            ev = [e for e in s.events if e[0] == "us" and e not in r["st0"].events]
            fl = [e for e, mm in s.cons if any(v.endswith(".is_inlier") for v in e.vars()) and mentions(e, kn)]
            sg = sign_of(s, fl[0]) if fl else ALL
            ws = stores(r, s)
            if not ev:
                rep.check(not ws, "formula", name + ": only solved points are written", c.fn.where(), "%s" % ws)
                continue
            rep.check(not sg & ZERO, "formula", name + ": only inliers are triangulated", c.fn.where(), guard_text(s))
            a = ev[0][2]
            mem = ev[0][3][a[5].base]
            pre = [v for v in fl[0].vars() if v.endswith(".is_inlier")][0][:-len(".is_inlier")] if fl else None
            if pre is None:
                continue
            got = []
            for row in range(4):
                v = c.K(0)
                for q in range(4):
                    v = v + c.p._load(s, mem, a[5].base, a[5].off + 8 * (4 * row + q), 8, "double") * X[q]
                hit = None
                for view, f in ((0, "x"), (1, "xp")):
                    for d in (0, 1):
                        pc = lambda k: P[view][k] * X[0] + P[view][k + 3] * X[1] + P[view][k + 6] * X[2] + P[view][k + 9] * X[3]
                        e = c.V("%s.%s[%d]" % (pre, f, d)) * pc(2) - pc(d)
                        if v.ratio(e):
                            hit = (view, d)
                got.append(hit)
            rep.check(None not in got and len(set(got)) == 4, "formula", name + ": rows are the four projection equations", c.fn.where(), "rows match %s" % got)
            rep.check(a[1].same(4) and a[3].same(4) and a[4].same(4) and a[6].same(4), "formula", name + ": four unknowns", c.fn.where(), "dimensions")
            xs = [w for w in ws if w[0] == "X"]
            ids = [w for w in ws if w[0] == "corr_ids"]
            rep.check(len(xs) == 3 and len(ids) == 1, "formula", name + ": one point and one id per solved correspondence", c.fn.where(), "%s" % [w[:2] for w in ws])
            if len(xs) == 3 and len(ids) == 1:
                base = min((w[1] for w in xs), key=lambda o: o.n.cval())
                for w in xs:
                    k = int((w[1] - base).cval()) // 4
                    e = c.V("%s[%d]~U" % (a[0].base, 12 + k)) / c.V("%s[%d]~U" % (a[0].base, 15))
                    rep.check(isinstance(w[3], R) and w[3].same(e), "formula", name + ": dehomogenised null vector [%d]" % k, c.fn.where(), "%s" % w[3])
                pt = ids[0][1] / c.K(4)
                rep.check((base / c.K(12)).same(pt), "formula", name + ": point and id have the same slot", c.fn.where(), "%s vs %s" % (base.show(), ids[0][1].show()))
                # capacity: slot < n_pt must be established on the path
                sg2 = sign_of(s, pt - c.V("n_pt"))
                caps = [e for e, mm in s.cons if mentions(e, next(iter(pt.vars()))) and (sign_of(s, e) in (NEG, POS))] if pt.vars() else []
                rep.check(sg2 == NEG or bool(caps), "result capacity respected", name, c.fn.where(),
                          "slot %s is written without being compared with the capacity; conditions: %s" % (pt.show(), guard_text(s)))
    try:
        tri()
    except (Unsupported, IndexError) as e:
        rep.undecide("nx_pinhole_triangulate", e)
    sized(rep, mo, H)
    pick(rep)
    rep.need("formula", 110)


CS, FLAG = 56, 48      # size of a correspondence record, offset of its inlier flag (from debug info, see layout())


def layout(p):
    global CS, FLAG
    from vlib.pix import field_off
    d = p.mod.di.get(("struct", "NXPointMatch2D"))
    if d:
        CS = d["size"]
        FLAG = field_off(p, "NXPointMatch2D", "is_inlier")[0]


def flags(p, st, fl):
    layout(p)
    for k, v in enumerate(fl):
        st.mem["corr_list"] = Entry("store", p.K(CS * k + FLAG), 4, p.K(v), st.mem.get("corr_list"))


def rec(k):
    return "corr_list" + ("{%d}" % k if k else "")


def solved(rep, rule, c, st, inst, nu, recs, rows_of, orders=None):
    """the matrix handed to the solver has exactly the defining rows of the listed correspondences"""
    ev = [e for e in st.events if e[0] == "us"]
    if len(ev) != 1:
        rep.check(False, rule, inst + ": solved once", c.fn.where(), "%d solver calls" % len(ev))
        return
    a = ev[0][2]
    mem = ev[0][3][a[5].base]
    n = sum(len(rows_of(k, None)) for k in recs)
    if not rep.check(a[4].same(n), rule, inst + ": number of rows", c.fn.where(), "%s rows, expected %d" % (a[4].show(), n)):
        return
    h = [c.V("hh[%d]" % k) for k in range(nu)]
    for q, k in enumerate(recs):
        want = rows_of(k, h)
        per = len(want)
        got = []
        for row in range(per):
            v = c.K(0)
            for j in range(nu):
                x = c.p._load(st, mem, a[5].base, a[5].off + 8 * (nu * (q * per + row) + j), 8, "double")
                if not isinstance(x, R):
                    raise Unsupported("design matrix cell %r" % x)
                v = v + x * h[j]
            got.append(next((w for w in range(per) if v.ratio(want[w])), None))
        rep.check(sorted(map(str, got)) == sorted(map(str, range(per))), rule, "%s: rows of correspondence %d" % (inst, k), c.fn.where(), "rows match equations %s" % got)


def sized(rep, mo, H):
    from vlib.poly import Ctx

    def epi(c):
        def f(k, h):
            if h is None:
                return [0]
            x, y, xp, yp = (c.V("%s.%s" % (rec(k), f)) for f in ("x[0]", "x[1]", "xp[0]", "xp[1]"))
            # solver unknowns are the row-major entries of F
            one = c.K(1)
            return [sum((a * b * h[3 * i + j] for i, a in enumerate((xp, yp, one)) for j, b in enumerate((x, y, one))), start=c.K(0))]
        return f

    def epiT(c):
        def f(k, h):
            return [0] if h is None else epi(c)(k, [h[3 * (q % 3) + q // 3] for q in range(9)])
        return f
    for name, conf in (("nx_fundamental_estimate", [(8, None), (9, None)]), ("nx_fundamental_estimate_inliers", [(9, (1, 1, 1, 0, 1, 1, 1, 1, 1)), (10, (0, 1, 1, 1, 1, 1, 1, 1, 1, 1))])):
        for n, fl in conf:
            inst = "%s, %d correspondences%s" % (name, n, "" if fl is None else " (flags %s)" % "".join(map(str, fl)))
            try:
                ctx = Ctx()
                c = Case(mo, name, ctx=ctx, unroll=True, distinct=True, opaque=H, argvals={1: R.const(ctx, n)}, init=(lambda p, st: flags(p, st, fl)) if fl else None)
                for st in c.parts:
                    recs = [k for k in range(n) if fl is None or fl[k]]
                    class Quiet:
                        def __init__(self):
                            self.bad = []
                        def check(self, ok, *a):
                            if not ok:
                                self.bad.append(a)
                            return ok
                    q1, q2 = Quiet(), Quiet()
                    solved(q1, "formula", c, st, inst, 9, recs, epi(c))
                    if q1.bad:
                        solved(q2, "formula", c, st, inst, 9, recs, epiT(c))
                    q = q1 if not q1.bad or q2.bad else q2
                    rep.check(not q.bad, "formula", inst + ": one epipolar equation per correspondence", c.fn.where(), "%s" % (q.bad and q.bad[0][-1]))
            except (Unsupported, KeyError) as e:
                rep.undecide(inst, e)
    name = "nx_pinhole_triangulate"
    for n_pt, fl in ((3, (1, 0, 1)), (1, (0, 1, 1)), (2, (1, 1))):
        inst = "%s, capacity %d, flags %s" % (name, n_pt, "".join(map(str, fl)))
        try:
            ctx = Ctx()
            K = lambda v: R.const(ctx, v)
            c = Case(mo, name, ctx=ctx, unroll=True, distinct=True, opaque=H, argvals={0: K(n_pt), 3: K(len(fl))}, init=lambda p, st: flags(p, st, fl))
            use = [k for k, f in enumerate(fl) if f][:n_pt]
            for st in c.parts:
                ev = [e for e in st.events if e[0] == "us"]
                rep.check(isinstance(st.ret, R) and st.ret.same(len(use)), "formula", inst + ": number of points", c.fn.where(), "returns %s" % st.ret)
                if not rep.check(len(ev) == len(use), "formula", inst + ": one solution per point", c.fn.where(), "%d solver calls for %d points" % (len(ev), len(use))):
                    continue
                for q, k in enumerate(use):
                    rep.check(same(c.outat(st, "corr_ids", 4 * q, 4, "i32"), c.K(k)), "formula", inst + ": id of point %d" % q, c.fn.where(), "%s" % c.outat(st, "corr_ids", 4 * q, 4, "i32"))
                    a, mem = ev[q][2], ev[q][3][ev[q][2][5].base]
                    X = [c.V("XX[%d]" % j) for j in range(4)]
                    P = [c.arr("P0", 12), c.arr("P1", 12)]
                    got = []
                    for row in range(4):
                        v = c.K(0)
                        for j in range(4):
                            v = v + c.p._load(st, mem, a[5].base, a[5].off + 8 * (4 * row + j), 8, "double") * X[j]
                        hit = None
                        for view, f in ((0, "x"), (1, "xp")):
                            for d in (0, 1):
                                pc = lambda z: P[view][z] * X[0] + P[view][z + 3] * X[1] + P[view][z + 6] * X[2] + P[view][z + 9] * X[3]
                                if v.ratio(c.V("%s.%s[%d]" % (rec(k), f, d)) * pc(2) - pc(d)):
                                    hit = (view, d)
                        got.append(hit)
                    rep.check(None not in got and len(set(got)) == 4, "formula", "%s: equations of point %d" % (inst, q), c.fn.where(), "rows match %s" % got)
                    w = [c.outat(st, "X", 12 * q + 4 * j, 4, "float") for j in range(3)]
                    rep.check(all(isinstance(x, R) and any("~U" in s for s in x.vars()) for x in w), "formula", "%s: coordinates of point %d come from the solution" % (inst, q), c.fn.where(), "%s" % [str(x) for x in w])
                c.only_writes(rep, st, {"X": 12 * len(use), "corr_ids": 4 * len(use), "corr_list": CS * len(fl)})
        except (Unsupported, KeyError, AttributeError) as e:
            rep.undecide(inst, e)


def same(a, b):
    return isinstance(a, R) and a.same(b)


def pick(rep):
    """nx_epipolar_pick_best_Rt: the candidate for which most points lie in front of both cameras, decided on the four
    candidates of exact two-view configurations"""
    from vlib.poly import Ctx
    name = "nx_epipolar_pick_best_Rt"
    m = kernels([(name, name, None)], opaque=["nx_dvec3_to_unit"], name="kern_pick")

    def rot(a, b, c, d):
        n = Fraction(a * a + b * b + c * c + d * d)
        M = [[a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)],
             [2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)],
             [2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d]]
        return [[x / n for x in r] for r in M]
    mv = lambda M, v: [sum(M[i][k] * v[k] for k in range(3)) for i in range(3)]
    sgn = lambda x: (x > 0) - (x < 0)
    for ci, (q, t, pts) in enumerate((((9, 1, -2, 1), (3, 1, Fraction(1, 2)), [(1, 2, 8), (-2, 1, 9), (3, -1, 7)]),
                                      ((7, -1, 1, 2), (-2, Fraction(1, 3), -1), [(1, -2, 10), (2, 3, 12)]),
                                      ((8, 2, 0, -1), (Fraction(1, 4), -2, 1), [(0, 1, 6), (-2, -2, 9), (1, 1, -5), (3, 0, 11)]))):
        Rm = rot(*q)
        t = [Fraction(x) for x in t]
        b = [-sum(Rm[k][i] * t[k] for k in range(3)) for i in range(3)]
        nb = sum(x * x for x in b)
        tw = [[2 * b[i] * b[j] / nb - (1 if i == j else 0) for j in range(3)] for i in range(3)]
        R2 = [[sum(Rm[i][k] * tw[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
        mt = [-x for x in t]
        cands0 = [(Rm, t), (Rm, mt), (R2, t), (R2, mt)]
        obs = []
        for X in pts:
            X = [Fraction(x) for x in X]
            Y = [a + c_ for a, c_ in zip(mv(Rm, X), t)]
            obs.append(((X[0] / X[2], X[1] / X[2]), (Y[0] / Y[2], Y[1] / Y[2])))

        def depth(cd, o):
            # s u - sp R^T v = b(candidate)
            M, tt = cd
            u = [o[0][0], o[0][1], Fraction(1)]
            v = [o[1][0], o[1][1], Fraction(1)]
            w = [sum(M[k][i] * v[k] for k in range(3)) for i in range(3)]
            bb = [-sum(M[k][i] * tt[k] for k in range(3)) for i in range(3)]
            uu, uw, ww = sum(x * x for x in u), sum(x * y for x, y in zip(u, w)), sum(x * x for x in w)
            ub, wb = sum(x * y for x, y in zip(u, bb)), sum(x * y for x, y in zip(w, bb))
            D = uw * uw - uu * ww
            s = (wb * uw - ub * ww) / D
            sp = (uu * wb - ub * uw) / D
            # least squares of s u - sp w = b
            return sgn(s) + sgn(-(-sp))
        for shift in range(4):
            cands = cands0[shift:] + cands0[:shift]
            sums = [sum(depth(cd, o) for o in obs) for cd in cands]
            best = sums.index(max(sums))
            for null in (False, True):
                inst = "%s, configuration %d, rotation of candidates %d%s" % (name, ci, shift, ", no score wanted" if null else "")

                def init(p, st):
                    for k, (M, tt) in enumerate(cands):
                        st.mem["R"] = Entry("store", p.K(8 * k), 8, Ptr("Rc%d" % k, p.K(0)), st.mem.get("R"))
                        st.mem["t"] = Entry("store", p.K(8 * k), 8, Ptr("tc%d" % k, p.K(0)), st.mem.get("t"))
                        for z in range(9):
                            st.mem["Rc%d" % k] = Entry("store", p.K(8 * z), 8, p.K(M[z % 3][z // 3]), st.mem.get("Rc%d" % k))
                        for z in range(3):
                            st.mem["tc%d" % k] = Entry("store", p.K(8 * z), 8, p.K(tt[z]), st.mem.get("tc%d" % k))
                    layout(p)
                    for k, (u, v) in enumerate(obs):
                        for o, x in zip((0, 4, 8, 12), u + v):
                            st.mem["corr_list"] = Entry("store", p.K(CS * k + o), 4, p.K(x), st.mem.get("corr_list"))
                try:
                    ctx = Ctx()
                    av = {2: R.const(ctx, len(obs))}
                    if null:
                        av[4] = Ptr("null", R.const(ctx, 0))
                    c = Case(m, name, ctx=ctx, unroll=True, distinct=True, argvals=av, init=init, opaque={"nx_dvec3_to_unit": lambda p, i, st, a: None})
                except (Unsupported, ZeroDivisionError) as e:
                    rep.undecide(inst, e)
                    continue
                for st in c.parts:
                    if not null and any(mk == ZERO and any(v.startswith("nonnull:") for v in e.vars()) for e, mk in st.cons):
                        continue
                    rep.check(same(st.ret, c.K(best)), "pose choice", inst, c.fn.where(), "chooses candidate %s; depth sign sums are %s" % (st.ret, sums))
                    if not null:
                        z = c.outat(st, "z_sign_sum", 0, 4, "i32")
                        rep.check(same(z, c.K(max(sums))), "pose choice", inst + ": score", c.fn.where(), "score %s; depth sign sums are %s" % (z, sums))
