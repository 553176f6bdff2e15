"""Small vector/matrix/quaternion kernels compute their defining formula."""
from vlib.kern import *

LEVEL = "proof"

NAMES = """nx_smat3_set_zero nx_smat3_inv nx_sdmat3_inv nx_smat3_mul nx_smat4_mul nx_dmat3_copy nx_dmat3_inv nx_dmat3_mul
nx_dmat3_mul_ua nx_dmat3_eye nx_dmat3_set_zero nx_dmat3_det nx_dmat3_xptFx nx_dmat3_frob_norm nx_dmat3_sub nx_dmat3_transform
nx_dmat4_mul nx_dmat4_eye nx_dmat4_to_s nx_dmat4_set_rotation nx_dmat4_set_translation
nx_svec3_norm_sq nx_svec3_dist_sq nx_svec3_dot nx_svec4h_to_euclidean nx_dvec3_copy nx_dvec3_cross nx_dvec3_dot nx_dvec3_norm_sq
nx_dvec3_norm nx_dvec3_to_unit nx_min_i nx_min_s nx_min_d nx_max_i nx_max_s nx_max_d nx_signum""".split()


def run(rep):
    m = kernels([(n, n, None) for n in NAMES])
    ck = Checker(rep, m)
    rep.analysed = {"kernels": len(NAMES), "functions": len(m.defined())}
    rep.assumptions = ["real-arithmetic semantics: floating-point rounding and overflow are not modelled",
                       "distinct pointer arguments do not overlap"]

    def unchanged(c, st, *bases):
        for b in bases:
            if c.written(st, b):
                rep.violate("operand unchanged", c.fn.name[3:] + ":" + b, c.fn.where(), "an input operand is written")
            else:
                rep.ok("operand unchanged", c.fn.name[3:] + ":" + b, c.fn.where())

    def vec(n, size, base, f, ret=None, inputs=()):
        def spec(c, st, eq):
            exp = f(c)
            for k, e in enumerate(exp):
                eq("[%d]" % k, c.out(st, base, k, size), e)
            if ret:
                eq("result", st.ret, ret(c))
            # nothing outside the result block is touched
            w = c.written(st, base)
            ext = [x for x in w if x[0] == "sym" or x[0] < 0 or x[0] + x[1] > len(exp) * size]
            rep.check(not ext, "writes stay in result", c.fn.name[3:], c.fn.where(), "writes outside the result: %s" % ext)
            unchanged(c, st, *inputs)
        return spec

    def scalar(f, inputs=()):
        def spec(c, st, eq):
            eq("result", st.ret, f(c))
            unchanged(c, st, *inputs)
        return spec

    K = lambda n, s: ck.kernel(n, s)
    K("nx_smat3_set_zero", vec(9, 4, "A", lambda c: [c.K(0)] * 9))
    K("nx_dmat3_set_zero", vec(9, 8, "A", lambda c: [c.K(0)] * 9))
    K("nx_dmat3_eye", vec(9, 8, "A", lambda c: [c.K(1 if k in (0, 4, 8) else 0) for k in range(9)]))
    K("nx_dmat4_eye", vec(16, 8, "A", lambda c: [c.K(1 if k in (0, 5, 10, 15) else 0) for k in range(16)]))
    K("nx_dmat3_copy", vec(9, 8, "dest", lambda c: c.arr("src", 9), inputs=["src"]))
    K("nx_dvec3_copy", vec(3, 8, "v0", lambda c: c.arr("v1", 3), inputs=["v1"]))
    K("nx_dmat4_to_s", vec(16, 4, "As", lambda c: c.arr("A", 16), inputs=["A"]))
    for n, sz, d in (("nx_smat3_mul", 4, 3), ("nx_dmat3_mul", 8, 3), ("nx_smat4_mul", 4, 4), ("nx_dmat4_mul", 8, 4)):
        K(n, vec(d * d, sz, "C", lambda c, d=d: mmul3(c.arr("A", d * d), c.arr("B", d * d), d), inputs=["A", "B"]))

    def ua(c):
        U = c.arr("U", 9)
        for k in (1, 2, 5):
            U[k] = c.K(0)
        C = mmul3(U, c.arr("A", 9))
        return C
    K("nx_dmat3_mul_ua", vec(9, 8, "C", ua, inputs=["U", "A"]))

    def inv(sz):
        def spec(c, st, eq):
            A = c.arr("M3", 9)
            d = det3(A)
            eq("returned determinant", st.ret, d)
            s = sign_of(st, d)
            if s == ZERO:
                for k in range(9):
                    eq("singular [%d]" % k, c.out(st, "M3i", k, sz), 0)
            elif s & ZERO:
                rep.violate("singular input is told apart", c.fn.name[3:], c.fn.where(), "the singular case is not separated (%s)" % guard_text(st))
            else:
                ad = adj3(A)
                for k in range(9):
                    eq("inverse [%d]" % k, c.out(st, "M3i", k, sz), ad[k] / d)
            unchanged(c, st, "M3")
        return spec
    K("nx_smat3_inv", inv(4))
    K("nx_dmat3_inv", inv(8))
    K("nx_sdmat3_inv", inv(4))
    K("nx_dmat3_det", scalar(lambda c: det3(c.arr("A", 9)), ["A"]))
    K("nx_dmat3_frob_norm", scalar(lambda c: fsqrt(c.ctx, dot(c.arr("A", 9), c.arr("A", 9))), ["A"]))
    K("nx_dmat3_sub", vec(9, 8, "A", lambda c: [a - b for a, b in zip(c.arr("A", 9), c.arr("B", 9))], inputs=["B"]))
    K("nx_dmat3_transform", vec(3, 8, "v", lambda c: mvec(c.arr("A", 9), c.arr("v", 3)), inputs=["A"]))
    K("nx_dmat3_xptFx", scalar(lambda c: dot([c.V("xp[0]"), c.V("xp[1]"), c.K(1)], mvec(c.arr("F", 9), [c.V("x[0]"), c.V("x[1]"), c.K(1)])), ["F", "x", "xp"]))

    def setR(c, st, eq):
        for r in range(3):
            for k in range(3):
                eq("rotation block", c.out(st, "M", 4 * k + r, 8), c.V("R[%d]" % (3 * k + r)))
        rep.check(all(o % 8 == 0 and (o // 8) % 4 < 3 and o // 8 < 12 for o, s in c.written(st, "M")), "writes stay in result", "nx_dmat4_set_rotation", c.fn.where(), "writes outside the rotation block")
    K("nx_dmat4_set_rotation", setR)

    def sett(c, st, eq):
        for r in range(3):
            eq("translation", c.out(st, "M", 12 + r, 8), c.V("t[%d]" % r))
        rep.check(all(96 <= o < 120 for o, s in c.written(st, "M")), "writes stay in result", "nx_dmat4_set_translation", c.fn.where(), "writes outside the translation column")
    K("nx_dmat4_set_translation", sett)
    for t in "sd":
        K("nx_%svec3_norm_sq" % t, scalar(lambda c: dot(c.arr("v", 3), c.arr("v", 3)), ["v"]))
        K("nx_%svec3_dot" % t, scalar(lambda c: dot(c.arr("v0", 3), c.arr("v1", 3)), ["v0", "v1"]))

    def dist(c):
        d = [a - b for a, b in zip(c.arr("v0", 3), c.arr("v1", 3))]
        return dot(d, d)
    K("nx_svec3_dist_sq", scalar(dist, ["v0", "v1"]))
    K("nx_dvec3_norm", scalar(lambda c: fsqrt(c.ctx, dot(c.arr("v", 3), c.arr("v", 3))), ["v"]))
    K("nx_dvec3_cross", vec(3, 8, "c", lambda c: cross(c.arr("a", 3), c.arr("b", 3)), inputs=["a", "b"]))

    def eucl(c, st, eq):
        eq("weight", st.ret, c.V("v[3]"))
        for k in range(3):
            eq("[%d]" % k, c.out(st, "v", k, 4), c.V("v[%d]" % k) / c.V("v[3]"))
        eq("[3]", c.out(st, "v", 3, 4), 1)
    K("nx_svec4h_to_euclidean", eucl)

    def unit(c, st, eq):
        v = c.arr("v", 3)
        n = fsqrt(c.ctx, dot(v, v))
        eq("norm", st.ret, n)
        s = sign_of(st, n)
        for k in range(3):
            if s == ZERO:
                eq("zero vector kept [%d]" % k, c.out(st, "v", k, 8), v[k])
            elif s & ZERO:
                rep.violate("zero vector is told apart", "nx_dvec3_to_unit", c.fn.where(), "division by a norm that may be zero")
            else:
                eq("unit [%d]" % k, c.out(st, "v", k, 8), v[k] / n)
    K("nx_dvec3_to_unit", unit)
    for t in "isd":
        for mm in ("min", "max"):
            def spec(c, st, eq, mm=mm):
                x, y = c.V("x"), c.V("y")
                s = sign_of(st, x - y)
                if s == ZERO:
                    good = st.ret.same(x) or st.ret.same(y)
                elif not (s & POS):
                    good = st.ret.same(x if mm == "min" else y)
                elif not (s & NEG):
                    good = st.ret.same(y if mm == "min" else x)
                else:
                    good = False
                rep.check(good, "formula", "nx_%s_%s" % (mm, t), c.fn.where(), "returns %r when %s" % (st.ret, guard_text(st)))
            K("nx_%s_%s" % (mm, t), spec)

    def sig(c, st, eq):
        s = sign_of(st, c.V("d"))
        eq("sign", st.ret, {NEG: -1, ZERO: 0, POS: 1}.get(s, 99))
    K("nx_signum", sig)
    rep.need("formula", 140)
