"""Variable-length vectors and matrices, order statistics, samplers and the LAPACK-backed solvers."""
from vlib.pix import *

LEVEL = "bounded"


def run(rep):
    th = rep.tier == "thorough"
    rep.assumptions = ["lengths are those enumerated; every value is symbolic", "real arithmetic", "qsort, LAPACK and SFMT behave as documented"]
    vectors(rep, th)
    matrices(rep, th)
    comparators(rep)
    statistics(rep, th)
    gaussian(rep, th)
    uniform(rep)
    lapack(rep)
    rep.need("vector formula", 60)
    rep.need("statistics", 60)
    rep.need("gaussian samples", 10)
    rep.need("LAPACK call", 60)


def tools(rep, rule):
    def same(c, st, inst, a, e):
        e = e if isinstance(e, R) else c.K(e)
        good = isinstance(a, R) and a.same(e)
        if not good and isinstance(a, R) and differ(c.ctx, a, e, st.cons) is False:
            rep.undecide(inst, a.show()[:160])
            return
        rep.check(good, rule, inst, c.fn.where(), "when %s: computes %s, the definition is %s" % (guard_text(st)[:160], a.show()[:200] if isinstance(a, R) else a, e.show()[:200]))

    def only(c, st, inst, base, hi):
        bad = []
        for b in st.mem:
            if b.startswith(("alloca", "heap")):
                continue
            for x in c.written(st, b):
                if b != base or x[0] == "sym" or x[0] < 0 or x[0] + x[1] > hi:
                    bad.append("%s%r" % (b, x))
        rep.check(not bad, "writes stay in result", inst, c.fn.where(), "writes at %s" % bad[:4])
    return same, only


def vectors(rep, th):
    ns = range(0, 5) if not th else range(0, 12)
    F = ["nx_dvec_set_zero", "nx_dvec_set", "nx_dvec_copy", "nx_dvec_norm_sq", "nx_dvec_norm", "nx_dvec_axpy", "nx_svec_set_zero", "nx_svec_norm_sq",
         "nx_svec_norm", "nx_svec_to_unit", "nx_svec_max_idx", "nx_svec_max_val", "nx_ucvec_dist_sq", "nx_ivec_set_zero", "nx_ivec_max_idx"]
    m = kernels([("%s_%d" % (f, n), f, {0: n}) for f in F for n in ns], name="p10v")
    same, only = tools(rep, "vector formula")
    for f in F:
        for n in ns:
            if n > 5 and "max" in f:
                continue
            inst = "%s(n=%d)" % (f, n)
            try:
                s = f.split("_")[1]
                es, ty = {"dvec": (8, "double"), "svec": (4, "float"), "ivec": (4, "i32"), "ucvec": (1, "i8")}[s]
                FMAX = tofrac(3.4028234663852886e38)
                pre = None
                if "svec_max" in f:
                    pre = lambda p: [(p.V("v[%d]" % k) + p.K(FMAX), POS) for k in range(n)]
                if "ivec_max" in f:
                    pre = lambda p: [(p.V("v[%d]" % k) + p.K(2 ** 31), POS) for k in range(n)]
                c = Case(m, "%s_%d" % (f, n), unroll=True, distinct=True, pre=pre)
                for st in c.parts:
                    x = c.arr("v", n)
                    ss = c.K(0)
                    for a in x:
                        ss = ss + a * a
                    op = f.split("vec_")[1]
                    if op in ("set_zero", "set"):
                        for k in range(n):
                            same(c, st, "%s [%d]" % (inst, k), c.out(st, "v", k, es, ty), c.K(0) if op == "set_zero" else c.V("value"))
                        only(c, st, inst, "v", n * es)
                    elif op == "copy":
                        for k in range(n):
                            same(c, st, "%s [%d]" % (inst, k), c.out(st, "dest", k, es, ty), c.V("src[%d]" % k))
                        only(c, st, inst, "dest", n * es)
                    elif op == "norm_sq":
                        same(c, st, inst, st.ret, ss)
                    elif op == "norm":
                        same(c, st, inst, st.ret, fsqrt(c.ctx, ss))
                    elif op == "axpy":
                        for k in range(n):
                            same(c, st, "%s [%d]" % (inst, k), c.out(st, "y", k, es, ty), c.V("y[%d]" % k) + c.V("a") * c.V("x[%d]" % k))
                        only(c, st, inst, "y", n * es)
                    elif op == "to_unit":
                        nr = fsqrt(c.ctx, ss)
                        zero = c.p.sign_under(st.cons, nr) == ZERO or c.p.sign_under(st.cons, ss) == ZERO
                        same(c, st, inst + " return", st.ret, nr)
                        for k in range(n):
                            same(c, st, "%s [%d]" % (inst, k), c.out(st, "v", k, es, ty), x[k] if zero else x[k] / nr)
                    elif op in ("max_idx", "max_val"):
                        want = None
                        if n == 0:
                            want = -1 if op == "max_idx" else None
                        else:
                            for k in range(n):
                                if all(not (c.p.sign_under(st.cons, x[k] - x[j]) & NEG) for j in range(n) if j != k) and all(not (c.p.sign_under(st.cons, x[k] - x[j]) & (NEG | ZERO)) for j in range(k)):
                                    want = k
                                    break
                        if n == 0:
                            if want is not None:
                                same(c, st, inst, st.ret, want)
                            continue
                        if op == "max_idx" and st.ret.is_const():
                            k = int(st.ret.cval())
                        elif op == "max_val":
                            k = next((j for j in range(n) if st.ret.same(x[j])), -1)
                        else:
                            k = -1
                        # k is the first maximum: nothing decided on this path contradicts it and every earlier element is smaller
                        ok = 0 <= k < n and max_ok(c, st, x, k)
                        if ok is None:
                            rep.undecide(inst, guard_text(st))
                        else:
                            rep.check(ok, "vector formula", inst, c.fn.where(), "when %s returns element %s" % (guard_text(st)[:200], st.ret))
                    elif op == "dist_sq":
                        d = c.K(0)
                        for k in range(n):
                            a = c.p._load(st, None, "v0", c.K(k), 1, "i8")
                            b = c.p._load(st, None, "v1", c.K(k), 1, "i8")
                            d = d + (a - b) * (a - b)
                        same(c, st, inst, st.ret, d)
            except Unsupported as e:
                rep.undecide(inst, e)


def max_ok(c, st, x, k):
    """is x[k] the first maximum under the decisions of this path (decided by the order relations recorded)"""
    n = len(x)
    ge = [[i == j for j in range(n)] for i in range(n)]
    gt = [[False] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if i != j:
                s = c.p.sign_under(st.cons, x[i] - x[j])
                ge[i][j] = not (s & NEG)
                gt[i][j] = s == POS
    for q in range(n):
        for i in range(n):
            for j in range(n):
                if ge[i][q] and ge[q][j]:
                    ge[i][j] = True
                    if gt[i][q] or gt[q][j]:
                        gt[i][j] = True
    return all(ge[k][j] for j in range(n)) and all(gt[k][j] for j in range(k))


def matrices(rep, th):
    same, only = tools(rep, "matrix formula")
    dims = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 4), (4, 3)]
    if th:
        dims = [(a, b) for a in range(1, 7) for b in range(1, 7)]
    mul = [(1, 1, 1), (2, 3, 2), (3, 2, 4), (3, 3, 3), (2, 2, 0)]
    specs = [("z%d_%d" % d, "nx_dmat_set_zero", {0: d[0], 1: d[1], 3: d[0] + 2}) for d in dims]
    specs += [("s%d_%d" % d, "nx_dmat_set", {0: d[0], 1: d[1], 3: d[0] + 2}) for d in dims]
    specs += [("t%d_%d" % d, "nx_dmat_transpose", {0: d[0], 1: d[1]}) for d in dims]
    specs += [("m%d_%d_%d" % d, "nx_dmat_mul", {0: d[0], 1: d[1], 2: d[2], 4: d[0] + 1, 6: d[2] + 2, 8: d[0] + 3}) for d in mul]
    m = kernels(specs, name="p10m", opaque=["nx_xmalloc", "nx_xcalloc", "nx_free"])
    H = {"nx_xmalloc": lambda p, i, st, a: Ptr("heap%d" % i.id, p.K(0)), "nx_xcalloc": lambda p, i, st, a: Ptr("heap%d" % i.id, p.K(0)), "nx_free": nothing}
    for a, b in dims:
        for k, f in (("z", "nx_dmat_set_zero"), ("s", "nx_dmat_set")):
            inst = "%s(%dx%d, ld %d)" % (f, a, b, a + 2)
            try:
                c = Case(m, "%s%d_%d" % (k, a, b), unroll=True, distinct=True, opaque=H)
                for st in c.parts:
                    for col in range(b):
                        for r in range(a):
                            same(c, st, "%s (%d,%d)" % (inst, r, col), c.out(st, "A", col * (a + 2) + r, 8), c.K(0) if k == "z" else c.V("value"))
                    bad = [x for x in c.written(st, "A") if x[0] == "sym" or (x[0] // 8) // (a + 2) >= b or (x[0] // 8) % (a + 2) + x[1] // 8 > a]
                    rep.check(not bad, "writes stay in result", inst, c.fn.where(), "writes %s" % bad[:4])
            except Unsupported as e:
                rep.undecide(inst, e)
        inst = "nx_dmat_transpose(%dx%d)" % (a, b)
        try:
            c = Case(m, "t%d_%d" % (a, b), unroll=True, distinct=True, opaque=H)
            for st in c.parts:
                for r in range(a):
                    for col in range(b):
                        # column-major a x b becomes b x a
                        same(c, st, "%s (%d,%d)" % (inst, r, col), c.out(st, "A", r * b + col, 8), c.V("A[%d]" % (col * a + r)))
                only(c, st, inst, "A", 8 * a * b)
        except Unsupported as e:
            rep.undecide(inst, e)
    for a, b, k in mul:
        inst = "nx_dmat_mul(%dx%d by %dx%d)" % (a, k, k, b)
        try:
            c = Case(m, "m%d_%d_%d" % (a, b, k), unroll=True, distinct=True)
            for st in c.parts:
                for col in range(b):
                    for r in range(a):
                        e = c.K(0)
                        for j in range(k):
                            e = e + c.V("A[%d]" % (j * (a + 1) + r)) * c.V("B[%d]" % (col * (k + 2) + j))
                        same(c, st, "%s (%d,%d)" % (inst, r, col), c.out(st, "C", col * (a + 3) + r, 8), e)
                bad = [x for x in c.written(st, "C") if x[0] == "sym" or (x[0] // 8) % (a + 3) >= a or (x[0] // 8) // (a + 3) >= b]
                bad += [q for q in ("A", "B") if c.written(st, q)]
                rep.check(not bad, "writes stay in result", inst, c.fn.where(), "writes %s" % bad[:4])
        except Unsupported as e:
            rep.undecide(inst, e)


def comparators(rep):
    m = kernels([(f, f, None) for f in ("nx_compare_double_incr", "nx_compare_int_incr")], name="p10c")
    for f, a, b in (("nx_compare_double_incr", "d0p", "d1p"), ("nx_compare_int_incr", "i0p", "i1p")):
        try:
            c = Case(m, f)
            for st in c.parts:
                d = c.V(a + "[0]") - c.V(b + "[0]")
                inst = "%s when %s" % (f, guard_text(st))
                if not st.ret.is_const():
                    if st.ret.ratio(d) is not None:
                        rep.violate("comparator", f, c.fn.where(), "returns the difference of two full-range values, which overflows for values of opposite sign")
                    else:
                        rep.undecide(f, st.ret.show()[:100])
                    continue
                s = c.p.sign_under(st.cons, d)
                v = st.ret.cval()
                want = ZERO if v == 0 else POS if v > 0 else NEG
                if s == want:
                    rep.ok("comparator", inst, c.fn.where())
                elif s & want and s != want:
                    rep.violate("comparator", inst, c.fn.where(), "returns %s for arguments in several orders" % v)
                else:
                    rep.violate("comparator", inst, c.fn.where(), "returns %s" % v)
        except Unsupported as e:
            rep.undecide(f, e)


def statistics(rep, th):
    same, only = tools(rep, "statistics")
    ns = list(range(0, 10)) if not th else list(range(0, 26))
    specs = []
    for f in ("nx_dstatistics_1d", "nx_istatistics_1d"):
        specs += [("%s_%d" % (f, n), f, {1: n}) for n in ns]
    m = kernels(specs, name="p10s", opaque=["qsort"])
    for f, es, ty, cmpn in (("nx_dstatistics_1d", 8, "double", "nx_compare_double_incr"), ("nx_istatistics_1d", 4, "i32", "nx_compare_int_incr")):
        for n in ns:
            inst = "%s(n=%d)" % (f, n)

            def qs(p, i, st, a):
                st.events.append(("qsort", a))
                if not (isinstance(a[0], Ptr) and a[0].base == "x"):
                    raise Unsupported("sorting something else")
                for k in range(n):
                    st.mem["x"] = Entry("store", p.K(k * es), es, p.V("q%d" % k), st.mem.get("x"))
                return None
            # sorted order facts
            big = 2 ** 31 - 1 if es == 4 else tofrac(1.7976931348623157e308)
            small = -2 ** 31 if es == 4 else -big

            def pre(p):
                l = [(p.V("q%d" % j) - p.V("q%d" % i), POS) for i in range(n) for j in range(i + 1, n)]
                for k in range(n):
                    l += [(p.V("q%d" % k) - p.K(big), NEG), (p.V("q%d" % k) - p.K(small), POS)]
                return l
            try:
                c = Case(m, "%s_%d" % (f, n), unroll=True, distinct=True, opaque={"qsort": qs}, pre=pre)
                for st in c.parts:
                    ev = [e for e in st.events if e[0] == "qsort"]
                    q = [c.V("q%d" % k) for k in range(n)] if n > 1 else [c.V("x[0]")] * n
                    if ev:
                        a = ev[0][1]
                        ok = len(ev) == 1 and a[1].same(c.K(n)) and a[2].same(c.K(es)) and isinstance(a[3], Ptr) and a[3].base.startswith("@" + cmpn)
                        rep.check(ok, "statistics", inst + " sort", c.fn.where(), "sorts %s elements of %s bytes with %s" % (a[1], a[2], a[3]))
                    elif n > 1:
                        rep.undecide(inst, "no library sort")
                        break
                    G = lambda x, t="double": get_field(c.p, st, "stats", "NXStatistics1D", x, t)
                    same(c, st, inst + " n", G("n", "i32"), n)
                    if n == 0:
                        for x in ("mean", "median", "stdev", "lower_quartile", "upper_quartile", "interquartile_range", "min", "max"):
                            same(c, st, inst + " " + x, G(x), 0)
                        continue
                    med = lambda l: (l[len(l) // 2] if len(l) % 2 else (l[len(l) // 2 - 1] + l[len(l) // 2]) / c.K(2))
                    lo = med(q[:n // 2]) if n > 1 else q[0]
                    hi = med(q[(n + 1) // 2:]) if n > 1 else q[0]
                    mean = c.K(0)
                    for x in q:
                        mean = mean + x
                    mean = mean / c.K(n)
                    var = c.K(0)
                    for x in q:
                        var = var + (x - mean) * (x - mean)
                    exp = dict(mean=mean, median=med(q), lower_quartile=lo, upper_quartile=hi, interquartile_range=hi - lo, stdev=fsqrt(c.ctx, var / c.K(n - 1)) if n > 1 else c.K(0))
                    for x, e in exp.items():
                        same(c, st, inst + " " + x, G(x), e)
                    for x, e in (("min", q[0]), ("max", q[-1])):
                        v = G(x)
                        eqs = [k for k in range(n) if v.same(q[k])]
                        ok = v.same(e) or any(c.p.sign_under(st.cons, q[k] - e) == ZERO for k in eqs)
                        rep.check(ok, "statistics", inst + " " + x, c.fn.where(), "when %s: %s is %s, the sorted end is %s" % (guard_text(st)[-200:], x, v.show(), e.show()))
            except Unsupported as e:
                rep.undecide(inst, e)


def gaussian(rep, th):
    same, only = tools(rep, "gaussian samples")
    ns = range(0, 6)
    m = kernels([("%s_%d" % (f, n), f, {1: n}) for f in ("nx_gaussian_sampler_sample_s", "nx_gaussian_sampler_sample_d") for n in ns], name="p10g",
                opaque=["nx_uniform_sampler_sample_s", "nx_uniform_sampler_sample_d"])
    H = Fraction(1, 2)
    SEQ = [(0, 0), (H, H), "ab", (Fraction(15, 16), Fraction(1, 16)), "ab", (H, H), (H, H), "ab"]
    for f, es, ty in (("nx_gaussian_sampler_sample_s", 4, "float"), ("nx_gaussian_sampler_sample_d", 8, "double")):
        for n in ns:
            inst = "%s(n=%d)" % (f, n)

            def draw(p, i, st, a):
                k = sum(1 for e in st.events if e[0] == "draw")
                st.events.append(("draw", a[0]))
                j, w = divmod(k, 2)
                if j >= len(SEQ):
                    raise Unsupported("more uniform draws than expected")
                if SEQ[j] == "ab":
                    return p.V("%s%d" % ("ab"[w], j))
                return p.K(SEQ[j][w])

            def pre(p):
                l = []
                for j, x in enumerate(SEQ):
                    if x == "ab":
                        v1, v2 = p.V("a%d" % j) * 2 - 1, p.V("b%d" % j) * 2 - 1
                        s = v1 * v1 + v2 * v2
                        l += [(s - 1, NEG), (s, POS)]
                return l
            try:
                c = Case(m, "%s_%d" % (f, n), unroll=True, distinct=True, opaque={"nx_uniform_sampler_sample_s": draw, "nx_uniform_sampler_sample_d": draw}, pre=pre)
                for st in c.parts:
                    js = [j for j, x in enumerate(SEQ) if x == "ab"]
                    for k in range(n):
                        j = js[k // 2]
                        v = [c.V("a%d" % j) * 2 - 1, c.V("b%d" % j) * 2 - 1]
                        s = v[0] * v[0] + v[1] * v[1]
                        e = c.V("sigma") * fsqrt(c.ctx, app(c.ctx, "log", s) * -2 / s) * v[k % 2] + c.V("mean")
                        same(c, st, "%s [%d]" % (inst, k), c.out(st, "samples", k, es, ty), e)
                    only(c, st, inst, "samples", n * es)
                    bad = [e[1] for e in st.events if e[0] == "draw" and not (isinstance(e[1], Ptr) and e[1].base == "*sampler.usampler")]
                    rep.check(not bad, "gaussian samples", inst + " source", c.fn.where(), "draws from %s" % bad[:2])
            except Unsupported as e:
                rep.undecide(inst, e)


def uniform(rep):
    SF = ["sfmt_init_gen_rand", "sfmt_fill_array32", "sfmt_fill_array64", "nx_xmalloc", "nx_free", "time", "sfmt_gen_rand_all", "nx_uniform_sampler_new"]
    F = ["nx_uniform_sampler_new_with_seed", "nx_uniform_sampler_init_seed", "nx_uniform_sampler_fill32", "nx_uniform_sampler_fill64", "nx_gaussian_sampler_init_seed", "nx_gaussian_sampler_new_with_seed"]
    m = kernels([(f, f, None) for f in F], name="p10u", opaque=SF)

    def rec(n):
        def h(p, i, st, a):
            st.events.append((n, a))
            if n in ("nx_xmalloc", "nx_uniform_sampler_new"):
                return Ptr("heap_%s%d" % (n, sum(1 for e in st.events if e[0] == n)), p.K(0))
            if n == "time":
                return p.V("now")
            return None
        return h
    H = {n: rec(n) for n in SF}
    for f in F:
        try:
            c = Case(m, f, opaque=H, distinct=True)
            for st in c.parts:
                ini = [e for e in st.events if e[0] == "sfmt_init_gen_rand"]
                fil = [e for e in st.events if e[0].startswith("sfmt_fill")]
                if "seed" in f:
                    obj = {"nx_uniform_sampler_init_seed": "sampler", "nx_gaussian_sampler_init_seed": "*sampler.usampler"}.get(f)
                    if f == "nx_uniform_sampler_new_with_seed":
                        obj = st.ret.base if isinstance(st.ret, Ptr) else None
                    if f == "nx_gaussian_sampler_new_with_seed":
                        u = c.p._load(st, st.mem.get(st.ret.base), st.ret.base, c.K(0), 8, "ptr")
                        obj = u.base
                    ok = bool(ini) and isinstance(ini[-1][1][0], Ptr) and ini[-1][1][0].base == obj and isinstance(ini[-1][1][1], R) and ini[-1][1][1].same(c.V("seed"))
                    rep.check(ok, "seeding", f, c.fn.where(), "generator state initialised with %s" % [e[1] for e in ini])
                else:
                    w = f[-2:]
                    ok = len(fil) == 1 and fil[0][0] == "sfmt_fill_array" + w and fil[0][1][0].base == "sampler" and fil[0][1][1].base == "samples" and fil[0][1][2].same(c.V("n"))
                    rep.check(ok, "seeding", f, c.fn.where(), "fills with %s" % [(e[0], e[1]) for e in fil])
        except Unsupported as e:
            rep.undecide(f, e)


def lapack(rep):
    """every driver hands LAPACK the caller's matrices, sizes and leading dimensions, with the work size it queried"""
    LP = ["sgesvd_", "dgesvd_", "dsysv_", "nx_xmalloc", "nx_free"]
    F = ["nx_%ssvd_%s" % (t, k) for t in "sd" for k in ("only_s", "us", "svt", "usvt")]
    m = kernels([(f, f, None) for f in F] + [("sol%d" % u, "nx_dsym_solver", {0: u}) for u in (0, 1)], name="p10l", opaque=LP)
    en = m.enum("NXSymmetricUpLo") or {}
    rule = "LAPACK call"

    def deref(p, st, a, size, ty):
        return p._load(st, st.mem.get(a.base), a.base, a.off, size, ty)

    def svd(t):
        def h(p, i, st, a):
            ints = {k: deref(p, st, a[k], 4, "i32") for k in (2, 3, 5, 8, 10, 12)}
            jobs = [deref(p, st, a[k], 1, "i8") for k in (0, 1)]
            st.events.append(("svd", t, jobs, ints, a))
            es = 8 if t == "d" else 4
            if ints[12].is_const() and ints[12].cval() == -1:
                st.mem[a[11].base] = Entry("store", a[11].off, es, p.V("LWORK"), st.mem.get(a[11].base))
                st.mem[a[13].base] = Entry("store", a[13].off, 4, p.K(0), st.mem.get(a[13].base))
            else:
                st.mem[a[13].base] = Entry("store", a[13].off, 4, p.V("INFO"), st.mem.get(a[13].base))
            return None
        return h

    def mal(p, i, st, a):
        st.events.append(("malloc", a[0]))
        return Ptr("heap", p.K(0))

    def sysv(p, i, st, a):
        ints = {k: deref(p, st, a[k], 4, "i32") for k in (1, 2, 4, 7, 9)}
        st.events.append(("sysv", deref(p, st, a[0], 1, "i8"), ints, a))
        st.mem[a[10].base] = Entry("store", a[10].off, 4, p.V("INFO"), st.mem.get(a[10].base))
        return None
    H = {"sgesvd_": svd("s"), "dgesvd_": svd("d"), "dsysv_": sysv, "nx_xmalloc": mal, "nx_free": nothing}
    for f in F:
        t, kind = f[3], f.split("svd_")[1]
        try:
            c = Case(m, f, opaque=H, distinct=True)
            for st in c.parts:
                ev = [e for e in st.events if e[0] == "svd"]
                q = [e for e in ev if e[3][12].is_const() and e[3][12].cval() == -1]
                r = [e for e in ev if e not in q]
                if not rep.check(len(r) == 1 and all(e[1] == t for e in ev), rule, f + " one decomposition", c.fn.where(), "%d decompositions" % len(r)):
                    continue
                e = r[0]
                ju, jv = ("A" if "u" in kind.replace("only", "") else "N"), ("A" if "vt" in kind else "N")
                ck = lambda ok, what, got: rep.check(ok, rule, "%s %s" % (f, what), c.fn.where(), "%s is %s" % (what, got))
                for w in ev:
                    ck(w[2][0].is_const() and int(w[2][0].cval()) == ord(ju), "jobU", w[2][0])
                    ck(w[2][1].is_const() and int(w[2][1].cval()) == ord(jv), "jobVt", w[2][1])
                    ck(w[3][2].same(c.V("m")) and w[3][3].same(c.V("n")), "size", (w[3][2], w[3][3]))
                a = e[4]
                isb = lambda x, b: isinstance(x, Ptr) and x.base == b and x.off.is_const() and x.off.cval() == 0
                ck(isb(a[4], "A") and e[3][5].same(c.V("ldA")), "A", (a[4], e[3][5]))
                ck(isb(a[6], "S"), "S", a[6])
                if ju == "A":
                    ck(isb(a[7], "U") and e[3][8].same(c.V("ldU")), "U", (a[7], e[3][8]))
                if jv == "A":
                    ck(isb(a[9], "Vt") and e[3][10].same(c.V("ldVt")), "Vt", (a[9], e[3][10]))
                es = 8 if t == "d" else 4
                lw = e[3][12]
                mal_ = [x[1] for x in st.events if x[0] == "malloc"]
                ck(len(q) == 1 and len(mal_) == 1 and mal_[0].same(lw * es) and isb(a[11], "heap") and "LWORK" in lw.show(), "work", (lw, mal_))
        except Unsupported as e:
            rep.undecide(f, e)
    for u in (0, 1):
        try:
            c = Case(m, "sol%d" % u, opaque=H, distinct=True)
            for st in c.parts:
                e = [x for x in st.events if x[0] == "sysv"]
                if not rep.check(len(e) == 1, rule, "nx_dsym_solver", c.fn.where(), "%d solves" % len(e)):
                    continue
                ch, ints, a = e[0][1:]
                want = "U" if u == en.get("NX_SYMMETRIC_UPPER", 0) else "L"
                isb = lambda x, b: isinstance(x, Ptr) and x.base == b
                ok = ch.is_const() and int(ch.cval()) == ord(want) and ints[1].same(c.V("n")) and ints[2].same(c.V("n_rhs")) and ints[4].same(c.V("lda")) and ints[7].same(c.V("ldb"))
                ok = ok and isb(a[3], "A") and isb(a[5], "ipiv") and isb(a[6], "B")
                rep.check(ok, rule, "nx_dsym_solver(%s)" % want, c.fn.where(), "called with %s %s" % (ch, ints))
                s = c.p.sign_under(st.cons, c.V("INFO"))
                v = st.ret
                rep.check(v.is_const() and ((v.cval() != 0) == (s == ZERO)) and s in (ZERO, NEG | POS, NEG, POS), rule, "nx_dsym_solver success flag (%s, %s)" % (want, s), c.fn.where(), "returns %s for info sign %s" % (v, s))
        except Unsupported as e:
            rep.undecide("nx_dsym_solver", e)
