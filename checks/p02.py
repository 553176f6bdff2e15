"""Rotations: quaternion and rotation-matrix routines agree with their definitions and with each other."""
from vlib.kern import *

LEVEL = "proof"
NAMES = """nx_quaternion_scale nx_quaternion_add nx_quaternion_sum nx_quaternion_mul nx_quaternion_prod nx_quaternion_conj
nx_quaternion_dot nx_quaternion_to_unit nx_quaternion_rotate nx_quaternion_to_R nx_quaternion_from_R nx_quaternion_to_Rt
nx_quaternion_from_axis_angle nx_rotation_3d_RzRyRx nx_rotation_3d_RxRyRz nx_rotation_3d_axis_angle""".split()


def run(rep):
    m = kernels([(n, n, None) for n in NAMES])
    ck = Checker(rep, m)
    rep.analysed = {"kernels": len(NAMES), "functions": len(m.defined())}
    rep.assumptions = ["real-arithmetic semantics: floating-point rounding and overflow are not modelled",
                       "distinct pointer arguments do not overlap"]

    def vec(base, n, f, ret=None):
        def spec(c, st, eq):
            exp = f(c)
            for k in range(n):
                eq("[%d]" % k, c.out(st, base, k, 8), exp[k])
            if ret:
                eq("result", st.ret, ret(c))
            c.only_writes(rep, st, {base: n * 8})
        return spec

    def Rq(q, unit=True):
        """active rotation of the unit quaternion q, column major"""
        w, x, y, z = q
        one = w * 0 + 1
        return [one - (y * y + z * z) * 2, (x * y + w * z) * 2, (x * z - w * y) * 2,
                (x * y - w * z) * 2, one - (x * x + z * z) * 2, (y * z + w * x) * 2,
                (x * z + w * y) * 2, (y * z - w * x) * 2, one - (x * x + y * y) * 2]

    K = ck.kernel
    q4 = lambda c: c.arr("q", 4)
    K("nx_quaternion_scale", vec("q", 4, lambda c: [x * c.V("s") for x in q4(c)]))
    K("nx_quaternion_add", vec("q", 4, lambda c: [a + b for a, b in zip(q4(c), c.arr("r", 4))]))
    K("nx_quaternion_sum", vec("q", 4, lambda c: [a + b for a, b in zip(c.arr("r", 4), c.arr("s", 4))]))
    K("nx_quaternion_mul", vec("q", 4, lambda c: qmul(q4(c), c.arr("r", 4))))
    K("nx_quaternion_prod", vec("q", 4, lambda c: qmul(c.arr("r", 4), c.arr("s", 4))))
    K("nx_quaternion_conj", vec("q", 4, lambda c: [q4(c)[0]] + [-x for x in q4(c)[1:]]))

    def dotspec(c, st, eq):
        eq("result", st.ret, dot(q4(c), c.arr("r", 4)))
        c.only_writes(rep, st, {})
    K("nx_quaternion_dot", dotspec)

    def unit(c, st, eq):
        n = fsqrt(c.ctx, dot(q4(c), q4(c)))
        eq("norm", st.ret, n)
        s = sign_of(st, n)
        for k in range(4):
            if s == ZERO:      # a guard for the zero quaternion may do anything but divide
                continue
            eq("unit [%d]" % k, c.out(st, "q", k, 8), q4(c)[k] / n)
    K("nx_quaternion_to_unit", unit)

    def rotate(c, st, eq):
        q, v = q4(c), c.arr("v", 3)
        conj = [q[0], -q[1], -q[2], -q[3]]
        r = qmul(qmul(q, [c.K(0)] + v), conj)
        for k in range(3):
            eq("q v q* [%d]" % k, c.out(st, "v", k, 8), r[k + 1])
        c.only_writes(rep, st, {"v": 24})
    K("nx_quaternion_rotate", rotate)

    def toR(c, st, eq):
        q = q4(c)
        n2 = dot(q, q)
        out = [c.out(st, "R", k, 8) for k in range(9)]
        # for a unit quaternion the matrix is q v q*: compare modulo |q|^2 = 1 (exact form or homogeneous form)
        hom = Rq(q)
        hom2 = [h if k % 4 else h + n2 - 1 for k, h in enumerate(hom)]
        good1 = all(isinstance(o, R) and o.same(h) for o, h in zip(out, hom))
        good2 = all(isinstance(o, R) and o.same(h) for o, h in zip(out, hom2))
        if good2 and not good1:
            hom = hom2
        for k in range(9):
            eq("matrix of q [%d]" % k, out[k], hom[k])
    K("nx_quaternion_to_R", toR)

    def toRt(c, st, eq):
        toR(c, st, eq)
        for k in range(3):
            eq("t [%d]" % k, c.out(st, "t", k, 8), c.V("q[%d]" % (4 + k)))
    K("nx_quaternion_to_Rt", toRt)

    def fromR(c, st, eq):
        M = c.arr("R", 9)
        q = [c.out(st, "q", k, 8) for k in range(4)]
        one = c.K(1)
        sq = [one + M[0] + M[4] + M[8], one + M[0] - M[4] - M[8], one - M[0] + M[4] - M[8], one - M[0] - M[4] + M[8]]
        # 4 q_i q_j in terms of the matrix
        pr = {(0, 1): M[5] - M[7], (0, 2): M[6] - M[2], (0, 3): M[1] - M[3],
              (1, 2): M[1] + M[3], (1, 3): M[6] + M[2], (2, 3): M[5] + M[7]}
        piv = [k for k in range(4) if (q[k] * q[k] * 4).same(sq[k])]
        if len(piv) != 1:
            rep.violate("formula", "nx_quaternion_from_R: pivot", c.fn.where(), "no component equals half the root of its squared-component sum when %s" % guard_text(st))
            return
        p = piv[0]
        for j in range(4):
            if j != p:
                eq("4 q%d q%d" % (min(p, j), max(p, j)), q[p] * q[j] * 4, pr[(min(p, j), max(p, j))])
        # the pivot must be provably non-zero under this branch: trace > 0, or largest diagonal with trace <= 0
        tr = M[0] + M[4] + M[8]
        d = [M[0], M[4], M[8]]
        if p == 0:
            good = not (sign_of(st, tr) & NEG)
        else:
            # with trace<=0 the largest diagonal element pivot satisfies 4q^2 >= 1
            good = all(sign_of(st, d[p - 1] - d[j]) & NEG == 0 for j in range(3) if j != p - 1) or _implied(st, d, p - 1)
        rep.check(good, "pivot bounded away from zero", "nx_quaternion_from_R: component %d" % p, c.fn.where(),
                  "component %d is used as divisor under %s" % (p, guard_text(st)))

    def _implied(st, d, a):
        """d[a] >= the others, using transitivity over recorded comparisons"""
        ge = {(i, j) for i in range(3) for j in range(3) if i != j and not (sign_of(st, d[i] - d[j]) & NEG)}
        for b in range(3):
            for (i, j) in list(ge):
                for (k, l) in list(ge):
                    if j == k and i != l:
                        ge.add((i, l))
        return all((a, j) in ge for j in range(3) if j != a) or _cases(st, d, a)

    def _cases(st, d, a):
        # not (d0>d1 and d0>d2) is recorded as partitions, one of which bounds d0 by another entry
        le = {(i, j) for i in range(3) for j in range(3) if i != j and not (sign_of(st, d[i] - d[j]) & POS)}
        ok = True
        for j in range(3):
            if j != a:
                ok = ok and ((j, a) in le or any((j, k) in le and (k, a) in le for k in range(3)))
        return ok
    K("nx_quaternion_from_R", fromR)

    def axang(c, st, eq):
        a = c.arr("axis", 3)
        ang = c.V("angle")
        n = fsqrt(c.ctx, dot(a, a))
        if sign_of(st, ang) == ZERO:
            for k in range(4):
                eq("zero angle [%d]" % k, c.out(st, "q", k, 8), 1 if k == 0 else 0)
            return
        h = ang * c.K("1/2") if False else ang / c.K(2)
        eq("cos", c.out(st, "q", 0, 8), fcos(c.ctx, h))
        s = fsin(c.ctx, h)
        if sign_of(st, n) == ZERO:
            return
        for k in range(3):
            eq("axis [%d]" % k, c.out(st, "q", k + 1, 8), a[k] / n * s)
    K("nx_quaternion_from_axis_angle", axang)

    def rx(c, a):
        co, s, o, z = fcos(c.ctx, a), fsin(c.ctx, a), c.K(1), c.K(0)
        return [o, z, z, z, co, s, z, -s, co]

    def ry(c, a):
        co, s, o, z = fcos(c.ctx, a), fsin(c.ctx, a), c.K(1), c.K(0)
        return [co, z, -s, z, o, z, s, z, co]

    def rz(c, a):
        co, s, o, z = fcos(c.ctx, a), fsin(c.ctx, a), c.K(1), c.K(0)
        return [co, s, z, -s, co, z, z, z, o]
    A = lambda c: (c.V("alpha"), c.V("beta"), c.V("gamma"))

    def zyx(c):
        a, b, g = A(c)
        return mmul3(mmul3(rz(c, g), ry(c, b)), rx(c, a))

    def xyz(c):
        a, b, g = A(c)
        return mmul3(mmul3(rx(c, a), ry(c, b)), rz(c, g))
    K("nx_rotation_3d_RzRyRx", vec("R", 9, zyx))
    K("nx_rotation_3d_RxRyRz", vec("R", 9, xyz))

    def rodr(c, st, eq):
        a = c.arr("axis", 3)
        n = fsqrt(c.ctx, dot(a, a))
        if sign_of(st, n) == ZERO:
            return
        v = [x / n for x in a]
        co, s = fcos(c.ctx, c.V("theta")), fsin(c.ctx, c.V("theta"))
        z = c.K(0)
        Kx = [z, v[2], -v[1], -v[2], z, v[0], v[1], -v[0], z]
        for k in range(9):
            i, j = k % 3, k // 3
            e = v[i] * v[j] * (c.K(1) - co) + Kx[k] * s
            if i == j:
                e = e + co
            eq("Rodrigues [%d]" % k, c.out(st, "R", k, 8), e)
    K("nx_rotation_3d_axis_angle", rodr)
    rep.need("formula", 80)
