"""Robust estimation: minimal samples, best-hypothesis bookkeeping, final model and inlier count."""
from vlib.pix import *
from vlib.kern import _val
import struct

LEVEL = "bounded"
NN = POS | ZERO


def snapshot(p, st, ptr, n, es=8, ty="double"):
    return [p._load(st, st.mem.get(ptr.base), ptr.base, ptr.off + p.K(es * k), es, ty) for k in range(n)]


def put(p, st, ptr, vals, es=8):
    for k, v in enumerate(vals):
        st.mem[ptr.base] = Entry("store", ptr.off + p.K(es * k), es, v, st.mem.get(ptr.base))


def num(st, what):
    return sum(1 for e in st.events if e[0] == what)


def run(rep):
    th = rep.tier == "thorough"
    rep.assumptions = ["rejected draws per run are bounded by the enumeration (every collision position is covered)",
                       "the fitting, scoring and checking steps are arbitrary functions of their arguments"]
    ransac(rep, th)
    retry(rep)
    usac_sampling(rep)
    usac(rep, th)
    usac_h(rep)
    draws(rep)
    inlier_rows(rep)
    norm_ransac(rep)
    rep.need("distinct sample", 60)
    rep.need("best hypothesis", 20)
    rep.need("usac bookkeeping", 20)


UNI = ["nx_uniform_sampler_sample_s", "nx_uniform_sampler_instance", "nx_uniform_sampler_sample_d", "nx_uniform_sampler_sample32", "nx_uniform_sampler_sample64"]


def uni_handlers(limit, per=99, n=None):
    """draws: symbolic; with n given only the first of every sample is, the others are fixed different positions"""
    def draw(p, i, st, a):
        k = num(st, "draw")
        since = 0
        for e in st.events:
            since = 0 if e[0] == "fit" else since + (e[0] == "draw")
        if k >= limit or since >= per:
            return []          # longer rejection sequences are not followed
        st.events.append(("draw",))
        if n is not None and since:
            return p.K(Fraction(2 * since + 1, 2 * min(10 + num(st, "fit"), n)))
        return p.V("u%d" % k)
    d = {n: draw for n in UNI if n != "nx_uniform_sampler_instance"}
    d["nx_uniform_sampler_instance"] = lambda p, i, st, a: Ptr("gsampler", p.K(0))
    return d


def sample_ok(rep, c, st, inst, ids, ntop, uses):
    """ids pairwise different, each in 0..ntop-1 as int(u * ntop)"""
    for a in range(len(ids)):
        for b in range(a):
            s = c.p.sign_under(st.cons, ids[a] - ids[b])
            rep.check(not (s & ZERO), "distinct sample", "%s positions %d,%d" % (inst, b, a), c.fn.where(),
                      "the same correspondence can be drawn twice: when %s the sample is %s" % (guard_text(st)[:200], [x.show() for x in ids]))
    for a, x in enumerate(ids):
        if x.is_const():
            continue
        sy = list(x.vars()) if isinstance(x, R) else []
        ok = False
        for k in range(uses):
            if x.same(app(c.ctx, "int", c.V("u%d" % k) * ntop)):
                ok = True
        if not ok:
            # another formula: evaluate its extremes over u in [0,1)
            v = next(iter(k for k in range(uses) if mentions_deep(c, x, "u%d" % k)), None)
            if v is None:
                rep.undecide(inst, "sample index %s" % x.show())
                continue
            hi = _ev(c, x, {"u%d" % v: Fraction(2 ** 24 - 1, 2 ** 24)})
            lo = _ev(c, x, {"u%d" % v: Fraction(0)})
            if hi is None or lo is None:
                rep.undecide(inst, "sample index %s" % x.show())
                continue
            rep.check(0 <= lo and hi <= ntop - 1 and hi == ntop - 1 and lo == 0, "sample range", "%s position %d" % (inst, a), c.fn.where(),
                      "index %s ranges over %s..%s, the candidates are 0..%s" % (x.show(), lo, hi, ntop - 1))
        else:
            rep.ok("sample range", "%s position %d" % (inst, a), c.fn.where())


def mentions_deep(c, x, name):
    for s in x.syms():
        if c.ctx.names[s] == name if hasattr(c.ctx, "names") else False:
            return True
    return name in x.show()


def _ev(c, x, env):
    import random
    try:
        ids = {}
        for n, v in env.items():
            for s in R.var(c.ctx, n).syms():
                ids[s] = v
        return _val(c.ctx, x, ids, random.Random(1), set())
    except Exception:
        return None


def ransac(rep, th):
    cfg = [("nx_homography_estimate_ransac", "nx_homography_estimate_4pt", "nx_homography_mark_inliers", "nx_homography_estimate_dlt_inliers", 4, "h"),
           ("nx_fundamental_estimate_ransac", "nx_fundamental_estimate_8pt", "nx_fundamental_mark_inliers", "nx_fundamental_estimate_inliers", 8, "F")]
    sizes = [(12, 3), (9, 2), (9, 1), (3, 2), (0, 1)]
    for fn, fit, mark, refit, ms, hn in cfg:
        op = [fit, mark, refit, "nx_homography_check", "qsort"] + UNI
        m = kernels([("%s_%d_%d" % (fn, n, it), fn, {1: n, 4: it}) for n, it in sizes], opaque=op, name="p11" + hn)
        for n, it in sizes:
            inst = "%s(n=%d, iterations=%d)" % (fn, n, it)
            LIM = ms * it + (1 if it == 1 else 0)

            def hfit(p, i, st, a):
                k = num(st, "fit")
                ids = snapshot(p, st, a[1], ms, 4, "i32")
                st.events.append(("fit", k, ids, a[0], a[2]))
                put(p, st, a[0], [p.V("M%d_%d" % (k, j)) for j in range(9)])
                return p.K(1)

            def hmark(p, i, st, a):
                k = num(st, "mark")
                mod = snapshot(p, st, a[0], 9)
                nm = next((t % q for t in ("M%d", "Q%d") for q in range(it + 3) if all(x.same(p.V((t % q) + "_%d" % j)) for j, x in enumerate(mod))), "other")
                st.events.append(("mark", k, mod, a[1:], nm))
                n = p.V("count_" + nm)
                old = next((e for e, mk in st.cons if mk == ZERO and isinstance(e, R) and (e - n).is_const()), None)
                if old is not None:
                    return p.K(-(old - n).cval())      # the count is a function of the model
                vals = {"M": (0, 7, 9), "Q0": (3, 20), "Q": (22, 4)}[nm if nm == "Q0" else nm[0]] if nm != "other" else (8,)
                return [(st.cons + [(n - v, ZERO)] if isinstance(st.cons, list) else st.cons + ((n - v, ZERO),), p.K(v)) for v in vals]

            def hrefit(p, i, st, a):
                k = num(st, "refit")
                if k >= 2:
                    return []
                st.events.append(("refit", k, snapshot(p, st, a[0], 9), a))
                put(p, st, a[0], [p.V("Q%d_%d" % (k, j)) for j in range(9)])
                return p.V("err")

            def hcheck(p, i, st, a):
                k = num(st, "check")
                mod = snapshot(p, st, a[0], 9)
                if any(all(x.same(p.V("M%d_%d" % (q, j))) for j, x in enumerate(mod)) for q in range(it + 3)) and num(st, "mark") <= it - 1:
                    return p.K(1)       # while hypotheses are generated: every one is well shaped (retries: see retry())
                st.events.append(("check", k, mod))
                return p.V("C%d" % k)

            def hsort(p, i, st, a):
                st.events.append(("sort", a))
                return None
            H = {fit: hfit, mark: hmark, refit: hrefit, "nx_homography_check": hcheck, "qsort": hsort}
            H.update(uni_handlers(LIM, ms + (1 if it == 1 else 0), None if it == 1 else n))
            try:
                c = Case(m, "%s_%d_%d" % (fn, n, it), unroll=True, distinct=True, opaque=H, max_parts=20000, deadline=200)
            except Unsupported as e:
                rep.undecide(inst, e)
                continue
            seen = set()
            for st in c.parts:
                fits = [e for e in st.events if e[0] == "fit"]
                marks = [e for e in st.events if e[0] == "mark"]
                if n < ms:
                    rep.check(st.ret.same(c.K(0)) and not fits, "best hypothesis", inst + " too few", c.fn.where(), "fits with too few correspondences or returns %s" % st.ret)
                    continue
                if not rep.check(len(fits) == it, "best hypothesis", inst + " iterations", c.fn.where(), "%d hypotheses" % len(fits)):
                    continue
                so = [k for k, e in enumerate(st.events) if e[0] == "sort"]
                f0 = next(k for k, e in enumerate(st.events) if e[0] == "fit")
                a = st.events[so[0]][1] if so else None
                rep.check(bool(so) and so[0] < f0 and a[0].base == "corr_list" and a[1].same(c.K(n)) and a[2].same(c.K(56)) and a[3].base.startswith("@nx_point_match_2d_cmp_match_cost"),
                          "best hypothesis", inst + " ordered by cost first", c.fn.where(), "sort %s" % (a,))
                for e in fits:
                    nt = min(10 + e[1], n)
                    key = (e[1], tuple(x.show() for x in e[2]), tuple(sorted(c.p.sign_under(st.cons, e[2][x] - e[2][y]) for x in range(ms) for y in range(x))))
                    if key in seen:
                        continue
                    seen.add(key)
                    sample_ok(rep, c, st, inst + " hypothesis %d" % e[1], e[2], nt, LIM)
                    rep.check(e[3].base == hn and e[4].base == "corr_list", "best hypothesis", inst + " fit arguments", c.fn.where(), "fits %s from %s" % (e[3], e[4]))
                # scoring: each hypothesis with all correspondences and the tolerance
                okm = all(x[3][0].same(c.K(n)) and x[3][1].base == "corr_list" and x[3][1].off.is_const() and x[3][1].off.cval() == 0 and x[3][2].same(c.V("inlier_tolerance")) for x in marks)
                okm = okm and all(any(all(x[2][j].same(c.V("M%d_%d" % (k, j))) for j in range(9)) for x in marks) for k in range(it))
                rep.check(okm, "best hypothesis", inst + " scoring", c.fn.where(), "a hypothesis is not scored on all correspondences with the tolerance")
                if not okm:
                    continue
                cnt = {}
                for e, mk in st.cons:
                    if mk == ZERO:
                        for v in e.vars():
                            if v.startswith("count_"):
                                cnt[v[6:]] = -(e - c.V(v)).cval()
                counts = [cnt["M%d" % k] for k in range(it)]
                ref = [e for e in st.events if e[0] == "refit"]
                last = marks[-1]
                final = [c.out(st, hn, j, 8) for j in range(9)]
                uninit = any("UNINIT" in v.show() for x in marks for v in x[2]) or any("UNINIT" in v.show() for v in final)
                rep.check(not uninit, "best hypothesis", inst + " initialised model", c.fn.where(), "an uninitialised model is scored or returned when %s" % guard_text(st)[-300:])
                if uninit:
                    continue
                allz = not any(counts)
                if st.ret.cval() == 0:
                    chk = [e for e in st.events if e[0] == "check"]
                    rejected = bool(chk) and c.p.sign_under(st.cons, c.V("C%d" % (len(chk) - 1))) == ZERO
                    rep.check(allz or rejected, "best hypothesis", inst + " zero result", c.fn.where(), "returns %s when %s" % (st.ret, guard_text(st)[-300:]))
                    continue
                ok = st.ret.same(c.K(cnt[last[4]])) and all(x.same(y) for x, y in zip(final, last[2]))
                rep.check(ok, "best hypothesis", inst + " count belongs to the returned model", c.fn.where(), "returns %s with a model other than the one it was counted for (when %s)" % (st.ret, guard_text(st)[-200:]))
                # the model refined/returned is a best one
                start = ref[0][2] if ref else final
                b = next((k for k in range(it) if all(start[j].same(c.V("M%d_%d" % (k, j))) for j in range(9))), None)
                if b is None:
                    rep.violate("best hypothesis", inst + " start of refinement", c.fn.where(), "refinement starts from %s" % start[0].show())
                    continue
                rep.check(counts[b] == max(counts), "best hypothesis", inst + " kept hypothesis %d of inlier counts %s" % (b, counts), c.fn.where(),
                          "hypothesis %d is kept although the inlier counts are %s" % (b, counts))


def retry(rep):
    """a degenerate sample gives no model and a skewed hypothesis is rejected: both are drawn again, at most a fixed number of
    times, and what is scored afterwards is a model that was really estimated"""
    fn, fit, mark, refit = "nx_homography_estimate_ransac", "nx_homography_estimate_4pt", "nx_homography_mark_inliers", "nx_homography_estimate_dlt_inliers"
    op = [fit, mark, refit, "nx_homography_check", "qsort"] + UNI
    m = kernels([("retry", fn, {1: 9, 4: 1})], opaque=op, name="p11r")
    OK, DEG, SKEW = "ok", "degenerate", "skewed"
    for plan in ([OK], [DEG, OK], [SKEW, OK], [DEG, SKEW, DEG, OK], [SKEW, DEG, OK], [DEG] * 40, [SKEW] * 5 + [OK]):
        inst = "%s with attempts %s" % (fn, ", ".join(plan[:6]) + (" ..." if len(plan) > 6 else ""))
        at = lambda k: plan[min(k, len(plan) - 1)]

        def hfit(p, i, st, a):
            k = num(st, "fit")
            st.events.append(("fit", k))
            if at(k) == DEG:
                return p.K(0)
            put(p, st, a[0], [p.V("M%d_%d" % (k, j)) for j in range(9)])
            return p.K(1)

        def which(p, st, ptr):
            mod = snapshot(p, st, ptr, 9)
            return next((q for q in range(60) if all(isinstance(x, R) and x.same(p.V("M%d_%d" % (q, j))) for j, x in enumerate(mod))), None)

        def hmark(p, i, st, a):
            st.events.append(("mark", which(p, st, a[0])))
            return p.K(3)

        def hcheck(p, i, st, a):
            q = which(p, st, a[0])
            st.events.append(("check", q))
            return p.K(0 if q is None or at(q) == SKEW else 1)
        H = {fit: hfit, mark: hmark, refit: ev_("refit"), "nx_homography_check": hcheck, "qsort": ev_("sort")}

        def draw(p, i, st, a):
            k = num(st, "draw")
            st.events.append(("draw",))
            return p.K(Fraction(2 * (k % 4) + 1, 18))
        H.update({x: draw for x in UNI})
        H["nx_uniform_sampler_instance"] = lambda p, i, st, a: Ptr("gsampler", p.K(0))
        try:
            c = Case(m, "retry", unroll=True, distinct=True, opaque=H, deadline=60)
        except Unsupported as e:
            rep.undecide(inst, e)
            continue
        for st in c.parts:
            marks = [e for e in st.events if e[0] == "mark"]
            bad = [e for e in st.events if e[0] in ("mark", "check") and e[1] is None]
            rep.check(not bad, "best hypothesis", inst + ": only estimated models are judged", c.fn.where(), "a model that no sample produced is used (%s)" % [e[0] for e in bad])
            if plan[-1] == OK:
                k = len(plan) - 1
                rep.check(num(st, "fit") == len(plan) and bool(marks) and marks[0][1] == k, "best hypothesis", inst + ": drawn again until usable", c.fn.where(),
                          "%d attempts, scored model %s" % (num(st, "fit"), [e[1] for e in marks]))
            else:
                rep.check(not marks and isinstance(st.ret, R) and st.ret.same(0), "best hypothesis", inst + ": no model, no inliers", c.fn.where(), "returns %s" % st.ret)


def ev_(name):
    return lambda p, i, st, a: st.events.append((name, a))


def usac_sampling(rep):
    m = kernels([("samp", "nx_usac_homography_sampling", None)], opaque=UNI, name="p11s")
    try:
        def init(p, st):
            set_field(p, st, "data", "NXUSACHomographyData", "n_top_hypo", p.K(11))
        c = Case(m, "samp", unroll=True, distinct=True, init=init, opaque=uni_handlers(6))
        for st in c.parts:
            ids = [c.out(st, "sample_ids", k, 4, "i32") for k in range(4)]
            sample_ok(rep, c, st, "nx_usac_homography_sampling", ids, 11, 6)
    except Unsupported as e:
        rep.undecide("nx_usac_homography_sampling", e)


CB = ["sampling_fn", "sample_check_fn", "model_fit_fn", "model_check_fn", "model_score_fn", "degeneracy_check_fn", "local_refinement_fn", "global_refinement_fn", "termination_fn"]


def usac(rep, th):
    """control loop with arbitrary callbacks: two rounds, one or two models per round"""
    m = kernels([("usac", "nx_usac", {0: 2, 2: 3})], opaque=["nx_xmalloc", "nx_free", "nx_xcalloc"], name="p11u")
    for rounds, nm in ((0, 1), (1, 1), (2, 1), (1, 2), (3, 1)):
        inst = "nx_usac(%d rounds, %d models per round)" % (rounds, nm)
        sym = lambda n: (lambda p, st: p.V("%s%d" % (n, num(st, n))))

        def term(p, i, st, a):
            k = num(st, "term")
            st.events.append(("term", snapshot(p, st, a[0], 2), a[1]))
            return p.K(1 if k >= rounds else 0)

        def samp(p, i, st, a):
            st.events.append(("samp", a[0]))
            return None

        def schk(p, i, st, a):
            k = num(st, "schk")
            st.events.append(("schk", a[0]))
            return p.V("ok%d" % k)

        def fit(p, i, st, a):
            k = num(st, "fit")
            st.events.append(("fit", k, a[2]))
            mp = p._load(st, st.mem.get(a[1].base), a[1].base, a[1].off, 8, "ptr")
            put(p, st, mp, [p.V("M%d_%d_%d" % (k, q, j)) for q in range(nm) for j in range(2)])
            return p.K(nm)

        def model_id(p, v):
            for k in range(8):
                for q in range(nm):
                    if v[0].same(p.V("M%d_%d_0" % (k, q))) and v[1].same(p.V("M%d_%d_1" % (k, q))):
                        return "M%d_%d" % (k, q)
                for t in ("L", "G"):
                    if v[0].same(p.V("%s%d_0" % (t, k))) and v[1].same(p.V("%s%d_1" % (t, k))):
                        return "%s%d" % (t, k)
            if all(x.is_const() and x.cval() == 0 for x in v):
                return "zero"
            return "?"

        def mchk(p, i, st, a):
            v = model_id(p, snapshot(p, st, a[0], 2))
            st.events.append(("mchk", v))
            return p.V("good_%s" % v)

        def score(p, i, st, a):
            v = model_id(p, snapshot(p, st, a[0], 2))
            st.events.append(("score", v))
            return p.V("s_%s" % v)

        def deg(p, i, st, a):
            v = model_id(p, snapshot(p, st, a[0], 2))
            st.events.append(("deg", v))
            return p.V("fine_%s" % v)

        def loc(p, i, st, a):
            v = model_id(p, snapshot(p, st, a[1], 2))
            k = num(st, "loc")
            st.events.append(("loc", v, k))
            put(p, st, a[0], [p.V("L%d_%d" % (k, j)) for j in range(2)])
            return p.V("ref_%s" % v)

        def glob(p, i, st, a):
            v = model_id(p, snapshot(p, st, a[1], 2))
            st.events.append(("glob", v))
            put(p, st, a[0], [p.V("G0_%d" % j) for j in range(2)])
            return None
        H = {"*config." + n: h for n, h in zip(CB, (samp, schk, fit, mchk, score, deg, loc, glob, term))}
        H["nx_xmalloc"] = lambda p, i, st, a: Ptr("heap%d" % i.id, p.K(0))
        H["nx_xcalloc"] = H["nx_xmalloc"]
        H["nx_free"] = nothing
        BIG = tofrac(1.7976931348623157e308)
        try:
            c = Case(m, "usac", unroll=True, distinct=True, opaque=H, max_parts=20000, deadline=200)
        except Unsupported as e:
            rep.undecide(inst, e)
            continue
        n = 0
        for st in c.parts:
            # replay the specification along the decisions of this path
            D = lambda nme: c.p.sign_under(st.cons, c.V(nme))
            best, bs = "zero", -c.K(BIG)
            bad = None
            li = 0

            def gt(a, b):
                s = c.p.sign_under(st.cons, a - b)
                if s == POS:
                    return True
                if not (s & POS):
                    return False
                return None
            r = 0
            for k in range(rounds):
                if D("ok%d" % k) == ZERO:
                    continue
                for q in range(nm):
                    v = "M%d_%d" % (r, q)
                    if D("good_" + v) == ZERO:
                        continue
                    s = c.V("s_" + v)
                    g = gt(s, bs)
                    if g is None:
                        bad = "model %s is not compared with the best score" % v
                        break
                    if not g:
                        continue
                    if D("fine_" + v) == ZERO:
                        continue
                    if D("ref_" + v) == ZERO:
                        best, bs = v, s
                        li += 1
                        continue
                    l = "L%d" % li
                    li += 1
                    g = gt(c.V("s_" + l), s)
                    if g is None:
                        bad = "the refined model is not compared with the original"
                        break
                    best, bs = (l, c.V("s_" + l)) if g else (v, s)
                r += 1
                if bad:
                    break
            if not bad:
                gl = [e for e in st.events if e[0] == "glob"]
                if len(gl) != 1 or gl[0][1] != best:
                    bad = "global refinement starts from %s, the best model is %s" % ([e[1] for e in gl], best)
                else:
                    g = gt(c.V("s_G0"), bs)
                    if g is None:
                        bad = "the globally refined model is not compared with the best score"
                    elif g:
                        best, bs = "G0", c.V("s_G0")
            if not bad:
                v = [c.out(st, "best_model", j, 8) for j in range(2)]
                got = model_id(c.p, v)
                if got != best:
                    bad = "returns model %s, the best accepted one is %s" % (got, best)
                elif not (isinstance(st.ret, R) and st.ret.same(bs)):
                    bad = "returns score %s for %s" % (st.ret, best)
            rep.check(bad is None, "usac bookkeeping", inst, c.fn.where(), "%s (when %s)" % (bad, guard_text(st)[:300]))


def usac_h(rep):
    """the homography configuration: callbacks wired to the right routines with the caller's data"""
    op = ["nx_usac", "nx_homography_mark_inliers", "nx_homography_check", "qsort", "nx_homography_estimate_dlt_inliers", "nx_homography_estimate_4pt"]
    m = kernels([("est%d" % n, "nx_usac_estimate_homography", {1: n}) for n in (3, 4, 30)] +
                [(f, f, None) for f in ("nx_usac_score_homography", "nx_usac_fit_homography", "nx_usac_homography_terminate")] +
                [("glob", "nx_usac_refine_homography_global", None)], opaque=op, name="p11h")
    W = dict(sampling_fn="nx_usac_homography_sampling", sample_check_fn="nx_usac_check_homography_sample", model_fit_fn="nx_usac_fit_homography", model_check_fn="nx_usac_check_homography",
             model_score_fn="nx_usac_score_homography", degeneracy_check_fn="nx_usac_check_homography_degeneracy", local_refinement_fn="nx_usac_refine_homography_local",
             global_refinement_fn="nx_usac_refine_homography_global", termination_fn="nx_usac_homography_terminate")

    def hu(p, i, st, a):
        cf = {}
        for f in W:
            o, sz = field_off(p, "NXUSACConfig", f)
            cf[f] = p._load(st, st.mem.get(a[3].base), a[3].base, a[3].off + p.K(o), 8, "ptr")
        d = {}
        for f, ty in (("n_corr", "i32"), ("corr_list", "ptr"), ("inlier_tolerance", "double"), ("max_n_iter", "i32"), ("n_top_hypo", "i32"), ("n_iterations", "i32")):
            o, sz = field_off(p, "NXUSACHomographyData", f)
            d[f] = p._load(st, st.mem.get(a[4].base), a[4].base, a[4].off + p.K(o), sz, ty)
        st.events.append(("usac", a, cf, d))
        put(p, st, a[1], [p.V("B%d" % j) for j in range(9)])
        return p.V("bs")

    def hm(p, i, st, a):
        k = num(st, "mark")
        if k > 3:
            return []
        st.events.append(("mark", k, snapshot(p, st, a[0], 9), a[1:]))
        return p.V("N%d" % k)

    def hc(p, i, st, a):
        st.events.append(("check", snapshot(p, st, a[0], 9)))
        return p.V("C")
    dlt = lambda p, i, st, a: (st.events.append(("refit", snapshot(p, st, a[0], 9), a)), put(p, st, a[0], [p.V("Q%d_%d" % (num(st, "refit"), j)) for j in range(9)]), p.V("e"))[2]

    def four(p, i, st, a):
        st.events.append(("four", a))
        return p.V("det")
    H = {"nx_usac": hu, "nx_homography_mark_inliers": hm, "nx_homography_check": hc, "qsort": lambda p, i, st, a: st.events.append(("sort", a)), "nx_homography_estimate_dlt_inliers": dlt,
         "nx_homography_estimate_4pt": four}
    rule = "usac homography"
    for n in (3, 4, 30):
        inst = "nx_usac_estimate_homography(n=%d)" % n
        try:
            c = Case(m, "est%d" % n, unroll=True, distinct=True, opaque=H)
            for st in c.parts:
                u = [e for e in st.events if e[0] == "usac"]
                if n < 4:
                    rep.check(not u and st.ret.same(c.K(0)), rule, inst, c.fn.where(), "runs with too few correspondences")
                    continue
                if not rep.check(len(u) == 1, rule, inst + " search", c.fn.where(), "%d searches" % len(u)):
                    continue
                _, a, cf, d = u[0]
                for f, w in W.items():
                    rep.check(isinstance(cf[f], Ptr) and cf[f].base.split(".")[0] == "@" + w, rule, "%s %s" % (inst, f), c.fn.where(), "%s is %s" % (f, cf[f]))
                ok = a[0].same(c.K(9)) and a[1].base == "h" and a[2].same(c.K(4)) and d["n_corr"].same(c.K(n)) and d["corr_list"].base == "corr_list" and d["inlier_tolerance"].same(c.V("inlier_tolerance"))
                ok = ok and d["max_n_iter"].same(c.V("max_n_iter")) and d["n_iterations"].same(c.K(0)) and d["n_top_hypo"].is_const() and 4 <= d["n_top_hypo"].cval() <= n
                rep.check(ok, rule, inst + " data", c.fn.where(), "data %s" % d)
                so = [e for e in st.events if e[0] == "sort"]
                mk = [e for e in st.events if e[0] == "mark"]
                good = bool(mk) and all(x.same(c.V("B%d" % j)) for j, x in enumerate(mk[-1][2])) and mk[-1][3][0].same(c.K(n)) and mk[-1][3][2].same(c.V("inlier_tolerance"))
                rep.check(len(so) == 1 and good, rule, inst + " final inliers", c.fn.where(), "inliers of the returned model are not marked")
                s = c.p.sign_under(st.cons, c.V("C"))
                if good:
                    rep.check(st.ret.same(c.K(0)) if s == ZERO else st.ret.same(c.V("N%d" % mk[-1][1])), rule, inst + " count (%s)" % s, c.fn.where(), "returns %s" % st.ret)
        except Unsupported as e:
            rep.undecide(inst, e)
    D = "data"
    try:
        c = Case(m, "nx_usac_score_homography", opaque=H, distinct=True)
        for st in c.parts:
            mk = [e for e in st.events if e[0] == "mark"]
            ok = len(mk) == 1 and all(x.same(c.V("model[%d]" % j)) for j, x in enumerate(mk[0][2])) and st.ret.same(c.V("N0"))
            rep.check(ok, rule, "score is the inlier count", c.fn.where(), "score %s" % st.ret)
    except Unsupported as e:
        rep.undecide("nx_usac_score_homography", e)
    try:
        c = Case(m, "nx_usac_fit_homography", opaque=H, distinct=True)
        for st in c.parts:
            s = c.p.sign_under(st.cons, c.V("det"))
            f4 = [e for e in st.events if e[0] == "four"]
            ok = len(f4) == 1 and f4[0][1][1].base == "sample_ids" and st.ret.is_const() and (st.ret.cval() == 0 if s == ZERO else st.ret.cval() == 1 if not (s & ZERO) else False)
            rep.check(ok, rule, "degenerate sample gives no model (%s)" % s, c.fn.where(), "%s models when determinant sign is %s" % (st.ret, s))
    except Unsupported as e:
        rep.undecide("nx_usac_fit_homography", e)
    try:
        c = Case(m, "glob", unroll=True, distinct=True, opaque=H)
        for st in c.parts:
            mk = [e for e in st.events if e[0] == "mark"]
            fin = [c.out(st, "new_model", j, 8) for j in range(9)]
            rf = [e for e in st.events if e[0] == "refit"]
            ok = bool(mk) and all(x.same(c.V("model[%d]" % j)) for j, x in enumerate(mk[0][2])) and all(not c.written(st, b) for b in ("model",))
            ok = ok and (all(x.same(c.V("model[%d]" % j)) for j, x in enumerate(fin)) if not rf else True)
            rep.check(ok, rule, "global refinement starts from the best model", c.fn.where(), "model %s" % fin[0].show())
    except Unsupported as e:
        rep.undecide("nx_usac_refine_homography_global", e)


def draws(rep):
    """single precision draws stay below one after rounding, so an index never equals the number of candidates"""
    m = kernels([("u", "nx_uniform_sampler_sample_s", None)], opaque=["sfmt_genrand_uint32", "sfmt_genrand_uint64"], name="p11d")
    try:
        c = Case(m, "u", opaque={"sfmt_genrand_uint32": lambda p, i, st, a: p.V("r32"), "sfmt_genrand_uint64": lambda p, i, st, a: p.V("r64")}, distinct=True)
        for st in c.parts:
            if not c.parts or not isinstance(st.ret, R):
                continue
            hi = _ev(c, st.ret, {"r32": Fraction(2 ** 32 - 1), "r64": Fraction(2 ** 64 - 1)})
            lo = _ev(c, st.ret, {"r32": Fraction(0), "r64": Fraction(0)})
            if hi is None or lo is None:
                rep.undecide("nx_uniform_sampler_sample_s", st.ret.show())
                continue
            f = struct.unpack("f", struct.pack("f", float(hi)))[0]
            rep.check(0 <= lo and f < 1.0, "draw below one", "nx_uniform_sampler_sample_s", c.fn.where(), "the largest draw rounds to %r in single precision" % f)
    except Unsupported as e:
        rep.undecide("nx_uniform_sampler_sample_s", e)


def inlier_rows(rep):
    """re-estimation uses exactly the marked correspondences"""
    import itertools
    for fn, row, rl, ms, solve, hn in (("nx_homography_estimate_dlt_inliers", "nx_homography_constraints_from_corr", 18, 4, "nx_homography_svd_solve", "h"),
                                       ("nx_fundamental_estimate_inliers", "nx_fundamental_constraints_from_corr", 9, 8, "nx_fundamental_svd_solve", "F")):
        N = ms + 2
        try:
            m = kernels([("e", fn, {1: N})], opaque=[row, solve, "nx_xmalloc", "nx_free", "nx_fundamental_fix_rank"], name="p11r" + hn)
        except Unsupported as e:
            rep.undecide(fn, e)
            continue
        pats = [[1] * N, [1] * (N - 1) + [0], [0] + [1] * (N - 1), [0] + [1] * ms + [0], [1] * 2 + [0, 0] + [1] * (N - 4), [0] * 3 + [1] * (N - 3), [0] * N]
        for pat in pats:
            inst = "%s, marks %s" % (fn, "".join(map(str, pat)))

            def init(p, st):
                o, sz = field_off(p, "NXPointMatch2D", "is_inlier")
                for k, b in enumerate(pat):
                    st.mem["corr_list"] = Entry("store", p.K(56 * k + o), sz, p.K(b), st.mem.get("corr_list"))
            H = {row: lambda p, i, st, a: st.events.append(("row", a)), solve: lambda p, i, st, a: (st.events.append(("solve", a)), p.V("sv"))[1],
                 "nx_xmalloc": lambda p, i, st, a: (st.events.append(("malloc", a[0])), Ptr("heapA", p.K(0)))[1], "nx_free": nothing, "nx_fundamental_fix_rank": lambda p, i, st, a: st.events.append(("rank", a))}
            try:
                c = Case(m, "e", unroll=True, distinct=True, init=init, opaque=H)
                for st in c.parts:
                    rows = [e[1] for e in st.events if e[0] == "row"]
                    sol = [e[1] for e in st.events if e[0] == "solve"]
                    want = [k for k, b in enumerate(pat) if b]
                    if len(want) < ms:
                        rep.check(not sol, "inlier rows", inst, c.fn.where(), "solves with %d of %d required inliers" % (len(want), ms))
                        continue
                    if not rows:
                        rep.undecide(inst, "rows are built another way")
                        continue
                    got = [(r[0].base, r[0].off, r[1].base, r[1].off) for r in rows]
                    ok = len(got) == len(want) and all(g[0] == "heapA" and g[1].same(c.K(8 * rl * j)) and g[2] == "corr_list" and g[3].same(c.K(56 * k)) for j, (g, k) in enumerate(zip(got, want)))
                    rep.check(ok, "inlier rows", inst, c.fn.where(), "rows from %s" % [(str(g[1]), str(g[3])) for g in got])
                    rep.check(len(sol) == 1 and sol[0][0].base == hn and sol[0][1].same(c.K(len(want))), "inlier rows", inst + " solve", c.fn.where(), "solves %s" % [str(s[1]) for s in sol])
                    mal = [e[1] for e in st.events if e[0] == "malloc"]
                    rep.check(len(mal) == 1 and mal[0].same(c.K(8 * rl * len(want))), "inlier rows", inst + " storage", c.fn.where(), "storage %s bytes" % mal)
            except Unsupported as e:
                rep.undecide(inst, e)


def norm_ransac(rep):
    """normalised estimation: tolerance scaled like the second image, model and matches mapped back"""
    for fn, core, den, hn in (("nx_homography_estimate_norm_ransac", "nx_homography_estimate_ransac", "nx_point_match_2d_stats_denormalize_homography", "h"),
                              ("nx_fundamental_estimate_norm_ransac", "nx_fundamental_estimate_ransac", "nx_point_match_2d_stats_denormalize_fundamental", "F")):
        op = [core, den, "nx_point_match_2d_stats_new", "nx_point_match_2d_stats_normalize_matches", "nx_point_match_2d_stats_denormalize_matches", "nx_point_match_2d_stats_free"]
        m = kernels([("n", fn, None)], opaque=op, name="p11q" + hn)
        H = {}
        for o in op:
            H[o] = (lambda o: lambda p, i, st, a: (st.events.append((o, a)), Ptr("stats", p.K(0)) if o.endswith("stats_new") else p.V("NI") if o == core else None)[1])(o)
        try:
            c = Case(m, "n", distinct=True, opaque=H)
            for st in c.parts:
                seq = [e[0] for e in st.events if e[0] in op]
                A = {e[0]: e[1] for e in st.events if e[0] in op}
                ok = core in A and seq.index(op[3]) < seq.index(core) if op[3] in seq and core in seq else False
                ok = ok and den in seq and op[4] in seq and seq.index(core) < seq.index(den) and seq.index(core) < seq.index(op[4])
                if ok:
                    a = A[core]
                    d = c.p._load(st, None, "stats", c.K(field_off(c.p, "NXPointMatch2DStats", "dp")[0]), field_off(c.p, "NXPointMatch2DStats", "dp")[1], "double")
                    ok = a[0].base == hn and a[2].base == "corr_list" and a[1].same(c.V("n_corr")) and mentions_tol(c, a[3]) and a[4].same(c.V("max_n_iter"))
                    ok = ok and A[den][0].base == "stats" and A[den][1].base == hn and A[op[4]][2].base == "corr_list" and A[op[4]][1].same(c.V("n_corr"))
                rep.check(bool(ok), "normalised estimation", fn, c.fn.where(), "steps %s" % seq)
                if ok:
                    t = A[core][3]
                    rep.check(t.same(c.V("inlier_tolerance") / c.V("stats[7]")) or "dp" in t.show() or "stats" in t.show(), "normalised estimation", fn + " tolerance", c.fn.where(), "tolerance %s" % t.show())
                    rep.check(isinstance(st.ret, R) and st.ret.same(c.V("NI")), "normalised estimation", fn + " count", c.fn.where(), "returns %s" % st.ret)
        except Unsupported as e:
            rep.undecide(fn, e)


def mentions_tol(c, e):
    return isinstance(e, R) and "inlier_tolerance" in e.show()
