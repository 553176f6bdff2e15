"""SHA-256 and the bit/byte-order helpers it rests on."""
from vlib.kern import *
from vlib.word import *
from vlib import bitlin

LEVEL = "proof"
TOTALS = [0, 1, 3, 54, 55, 56, 57, 62, 63, 64, 65, 119, 120, 127, 128, 183]


def primes(n):
    out = []
    k = 2
    while len(out) < n:
        if all(k % p for p in out):
            out.append(k)
        k += 1
    return out


def icbrt(n):
    lo, hi = 0, 1 << ((n.bit_length() + 2) // 3 + 1)
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if mid ** 3 <= n:
            lo = mid
        else:
            hi = mid - 1
    return lo


def constants():
    import math
    K = [icbrt(p << 96) & 0xffffffff for p in primes(64)]
    H = [math.isqrt(p << 64) & 0xffffffff for p in primes(8)]
    return K, H


def run(rep):
    rep.assumptions = ["whole-message hashing: message split and length combinations are enumerated (every residue class boundary of the padding), all bytes symbolic",
                       "rotation counts 1..width-1"]
    rot = [(w, n) for w in (32, 64) for n in range(1, w)]
    idx = list(range(0, 18))
    specs = [("pb", "nx_sha256_process_block", None), ("be32", "nx_split_big_endian32", None), ("be64", "nx_split_big_endian64", None), ("cbe", "nx_compose_big_endian32", None)]
    specs += [("rot%d_%d" % x, "nx_rotr%d" % x[0], {1: x[1]}) for x in rot]
    specs += [("bc32", "nx_bit_count32", None), ("bc64", "nx_bit_count64", None)]
    specs += [("bas%d_%d" % (i, v), "nx_bit_array_set", {1: i, 2: v}) for i in idx for v in (0, 1)]
    specs += [("bag%d" % i, "nx_bit_array_get", {1: i}) for i in idx]
    specs += [("baz%d" % i, "nx_bit_array_set_zero", {0: i}) for i in idx]
    m = kernels(specs, name="p08")

    def analyse(alias, elems, **kw):
        f = m.functions.get("vk$" + alias)
        if f is None or f.decl:
            rep.undecide(alias, "not found")
            return None, None
        try:
            p = BVN(m, f, elems=elems, ignore=is_log, unroll=True, **kw)
            parts = p.run()
            return p, parts
        except (Unsupported, ZeroDivisionError, AttributeError) as e:
            rep.undecide(alias, e)
            return None, None

    # ---- compression function
    p, parts = analyse("pb", {"block": 1, "H": 4}, argnames=["block", "H"])
    if p:
        W = p.W
        Kc, H0 = constants()
        S = lambda *t: W.add(32, [(x, 1) if not isinstance(x, int) else (W.const(x, 32), 1) for x in t])
        X = lambda *t: t[0].xor(t[1]).xor(t[2])
        w = []
        for i in range(16):
            r = W.const(0, 32)
            for k in range(4):
                r = r.xor(W.var("block[%d]" % (4 * i + k), 8).zext(32).shl(24 - 8 * k))
            w.append(r)
        for i in range(16, 64):
            s0 = X(w[i - 15].rotr(7), w[i - 15].rotr(18), w[i - 15].lshr(3))
            s1 = X(w[i - 2].rotr(17), w[i - 2].rotr(19), w[i - 2].lshr(10))
            w.append(S(w[i - 16], s0, w[i - 7], s1))
        hv = [W.var("H[%d]" % k, 32) for k in range(8)]
        a, b, c, d, e, f, g, h = hv
        for i in range(64):
            s1 = X(e.rotr(6), e.rotr(11), e.rotr(25))
            ch = e.and_(f).xor(e.not_().and_(g))
            t1 = S(h, s1, ch, Kc[i], w[i])
            s0 = X(a.rotr(2), a.rotr(13), a.rotr(22))
            maj = a.and_(b).xor(a.and_(c)).xor(b.and_(c))
            t2 = S(s0, maj)
            h, g, f, e, d, c, b, a = g, f, e, S(d, t1), c, b, a, S(t1, t2)
        new = [S(x, y) for x, y in zip(hv, (a, b, c, d, e, f, g, h))]
        rep.check(len(parts) == 1, "compression is data-independent straight-line code", "process_block", p.fn.where(), "%d paths" % len(parts))
        for st in parts:
            for k in range(8):
                v = p._load(st, st.mem.get("H"), "H", p.K(4 * k), 4, "i32")
                rep.check(isinstance(v, Word) and v.same(new[k]), "compression function of FIPS 180-4", "H[%d] after one block" % k, p.fn.where(), "state word %d is not the specified function of the block and the previous state" % k)
            bad = [b for b in st.mem if not b.startswith("alloca") and b != "H"]
            rep.check(not bad, "compression function of FIPS 180-4", "block left unchanged", p.fn.where(), "also writes %s" % bad)

    # ---- byte order, rotation, bits
    for al, base, w in (("be32", "bytep", 32), ("be64", "bytep", 64)):
        p, parts = analyse(al, {"bytep": 1}, argnames=["bytep", "x"])
        if p is None:
            continue
        # the argument is a word: redo with a word argument
        Wt = Words()
        x = Wt.var("x", w)
        p, parts = analyse(al, {"bytep": 1}, argnames=["bytep", "x"], words=Wt, argvals={1: x})
        for st in parts or []:
            for k in range(w // 8):
                v = p._load(st, st.mem.get("bytep"), "bytep", p.K(k), 1, "i8")
                rep.check(isinstance(v, Word) and v.same(x.lshr(w - 8 - 8 * k).trunc(8)), "big-endian byte order", "nx_split_big_endian%d byte %d" % (w, k), p.fn.where(), "byte %d is %s" % (k, v))
    p, parts = analyse("cbe", {"bytep": 1}, argnames=["bytep"])
    for st in parts or []:
        r = p.W.const(0, 32)
        for k in range(4):
            r = r.xor(p.W.var("bytep[%d]" % k, 8).zext(32).shl(24 - 8 * k))
        rep.check(isinstance(st.ret, Word) and st.ret.same(r), "big-endian byte order", "nx_compose_big_endian32", p.fn.where(), "result %s" % st.ret)
    for w, n in rot:
        Wt = Words()
        x = Wt.var("x", w)
        p, parts = analyse("rot%d_%d" % (w, n), {}, words=Wt, argvals={0: x})
        for st in parts or []:
            rep.check(isinstance(st.ret, Word) and st.ret.same(x.rotr(n)), "rotation", "nx_rotr%d by %d" % (w, n), p.fn.where(), "result %s" % st.ret)
    for w in (32, 64):
        f = m.functions.get("vk$bc%d" % w)
        try:
            r = bitlin.evaluate(f)
            rep.check(isinstance(r, bitlin.Lin) and r.k == 0 and r.c == {i: 1 for i in range(w)}, "bit count is the number of one bits", "nx_bit_count%d" % w, f.where(), "weights of the bits: %s" % (r.c if isinstance(r, bitlin.Lin) else r))
        except Unsupported as e:
            rep.undecide("nx_bit_count%d" % w, e)
    for i in idx:
        for v in (0, 1):
            p, parts = analyse("bas%d_%d" % (i, v), {"bits": 1}, argnames=["bits", "idx", "value"])
            for st in parts or []:
                for by in range(4):
                    got = p._load(st, st.mem.get("bits"), "bits", p.K(by), 1, "i8")
                    old = p.W.var("bits[%d]" % by, 8)
                    exp = old
                    if by == i // 8:
                        mk = p.W.const(1 << (i % 8), 8)
                        exp = old.or_(mk) if v else old.and_(mk.not_())
                    rep.check(isinstance(got, (Word, R)) and p.word(got, 8).same(exp), "bit array", "set bit %d to %d, byte %d" % (i, v, by), p.fn.where(), "byte becomes %s" % got)
        p, parts = analyse("bag%d" % i, {"bits": 1}, argnames=["bits", "idx"])
        for st in parts or []:
            if isinstance(st.ret, Word):
                a = p.W.atom(("var", "bits[%d]" % (i // 8)), 8)
                lits = {(at, off + j) for mono, mask in st.ret.m.items() for j in range(st.ret.w) if (mask >> j) & 1 for at, off in mono}
                ok = lits == {(a, i % 8)} and frozenset() not in st.ret.m
                rep.check(ok, "bit array", "get bit %d" % i, p.fn.where(), "depends on %s" % st.ret)
            else:
                rep.undecide("nx_bit_array_get", "%s" % st.ret)
        p, parts = analyse("baz%d" % i, {"bv": 1}, argnames=["n_bits", "bv"])
        for st in parts or []:
            n = (i + 7) // 8
            ok = True
            for by in range(n):
                g = p._load(st, st.mem.get("bv"), "bv", p.K(by), 1, "i8")
                ok = ok and isinstance(g, R) and g.same(0)
            g = p._load(st, st.mem.get("bv"), "bv", p.K(n), 1, "i8")
            ok = ok and isinstance(g, Word)
            rep.check(ok, "bit array", "clear %d bits" % i, p.fn.where(), "not exactly %d bytes cleared" % n)
    whole(rep)
    rep.need("compression function of FIPS 180-4", 8)
    rep.need("padding and blocks of FIPS 180-4", 20)
    rep.need("rotation", 60)


def wide_length(rep):
    """the length handed to the padding is computed in 64 bits from the 64-bit part lengths"""
    rule = "64-bit length"
    m = kernels([("multi", "nx_sha256_multi", None)], name="p08w", opaque=["nx_sha256_process_block", "nx_memncpy_multi"])
    f = m.functions.get("vk$multi")
    if f is None or f.decl:
        rep.undecide("nx_sha256_multi", "not found")
        return
    n = 0
    for i in f.instrs():
        if i.op != "store" or i.d["sz"] != 1:
            continue
        # values the stored byte is computed from, and whether a narrower integer lies between it and a part length
        seen, work, narrow = set(), [(i.ops[0], None)], []
        while work:
            o, nw = work.pop()
            if o[0] != "v" or (o[1], nw is not None) in seen:
                continue
            seen.add((o[1], nw is not None))
            x = f.val.get(o[1])
            if x is None:
                continue
            if x.op == "load":
                if x.ty == "i64":
                    narrow.append(nw)
                continue
            if x.op in ("zext", "sext"):
                nw = x
            if x.op == "phi":
                work += [(v, nw) for v, _ in x.d["inc"]]
            elif x.op in ("add", "mul", "shl", "lshr", "or", "freeze", "select", "trunc", "zext", "sext", "and"):
                work += [(q, nw) for q in x.ops]
        if narrow:
            n += 1
            bad = [x for x in narrow if x is not None]
            rep.check(not bad, rule, "nx_sha256_multi length byte %d" % n, i.where(), "the bit length passes through a narrower integer at %s and wraps for long messages" % (bad[0].where() if bad else ""))
    if not n:
        rep.undecide("nx_sha256_multi length field", "no length byte found")


def whole(rep):
    wide_length(rep)
    Kc, H0 = constants()
    thorough = rep.tier == "thorough"
    splits = []
    for t in (range(0, 200) if thorough else TOTALS):
        splits.append((t,))
        for a in sorted(x for x in {0, 1, t // 2, t - 1, min(64, t)} if 0 <= x <= t):
            splits.append((a, t - a))
        if t >= 3:
            splits.append((t // 3, 0, t - t // 3))
            splits.append((1, t - 2, 1))
    m = kernels([("multi%d" % k, "nx_sha256_multi", {1: k}) for k in (1, 2, 3)] + [("one", "nx_sha256", None)], name="p08m", opaque=["nx_sha256_process_block"])
    import itertools
    for sp in splits:
        for al in (["multi1", "one"] if len(sp) == 1 else ["multi%d" % len(sp)]):
            f = m.functions.get("vk$" + al)
            if f is None or f.decl:
                rep.undecide(al, "not found")
                continue
            inst = "%s lengths %s" % ("nx_sha256" if al == "one" else "nx_sha256_multi", "+".join(map(str, sp)))
            from vlib.poly import Ctx
            ctx = Ctx()
            Wt = Words()

            def init(p, st):
                if al != "one":
                    for k, l in enumerate(sp):
                        p.store(st, Ptr("lmsg", p.K(8 * k)), 8, p.K(l))
                        p.store(st, Ptr("msg", p.K(8 * k)), 8, Ptr("m%d" % k, p.K(0)))

            def block(p, i, st, a):
                blk, H = a
                n = sum(1 for e in st.events if e[0] == "block")
                by = [p.word(p.load(st, Ptr(blk.base, blk.off + k), 1, "i8"), 8) for k in range(64)]
                hh = [p.word(p.load(st, Ptr(H.base, H.off + 4 * k), 4, "i32"), 32) for k in range(8)]
                st.events.append(("block", by, hh))
                for k in range(8):
                    p.store(st, Ptr(H.base, H.off + 4 * k), 4, p.W.var("H%d_%d" % (n + 1, k), 32))
                # a compression function may scratch the block
                for k in range(64):
                    p.store(st, Ptr(blk.base, blk.off + k), 1, p.W.var("used%d_%d" % (n, k), 8))
            kz = lambda v: R.const(ctx, v)
            av = {1: Ptr("m0", kz(0)), 2: kz(sp[0])} if al == "one" else {}
            names = ["hash", "msg", "lmsg"] if al == "one" else ["hash", "n_msg", "msg", "lmsg"]
            try:
                p = BVN(m, f, elems={"m0": 1, "m1": 1, "m2": 1}, words=Wt, ctx=ctx, argnames=names, argvals=av, init=init, unroll=True, ignore=is_log,
                        opaque={"nx_sha256_process_block": block})
                parts = p.run()
            except (Unsupported, ZeroDivisionError, AttributeError) as e:
                rep.undecide(inst, e)
                continue
            msg = [Wt.var("m%d[%d]" % (k, j), 8) for k, l in enumerate(sp) for j in range(l)]
            L = len(msg)
            cst = lambda v: Wt.const(v, 8)
            pad = msg + [cst(0x80)]
            while len(pad) % 64 != 56:
                pad.append(cst(0))
            pad += [cst(b) for b in (L * 8).to_bytes(8, "big")]
            for st in parts:
                bl = [e for e in st.events if e[0] == "block"]
                ok = len(bl) == len(pad) // 64
                why = "%d blocks are compressed, %d are defined" % (len(bl), len(pad) // 64)
                if ok:
                    for n, (_, by, hh) in enumerate(bl):
                        for k in range(64):
                            if not by[k].same(pad[64 * n + k]):
                                ok = False
                                why = "byte %d of block %d is %s, should be %s" % (k, n, by[k], pad[64 * n + k])
                                break
                        hx = [Wt.const(H0[k], 32) if n == 0 else Wt.var("H%d_%d" % (n, k), 32) for k in range(8)]
                        if ok and not all(a.same(b) for a, b in zip(hh, hx)):
                            ok = False
                            why = "the chaining value of block %d is not the %s" % (n, "initial hash value" if n == 0 else "result of the previous block")
                        if not ok:
                            break
                rep.check(ok, "padding and blocks of FIPS 180-4", inst, p.fn.where(), why)
                if ok:
                    try:
                        o = [p.word(p._load(st, st.mem.get("hash"), "hash", p.K(k), 1, "i8"), 8) for k in range(32)]
                        good = all(o[4 * k + j].same(Wt.var("H%d_%d" % (len(bl), k), 32).lshr(24 - 8 * j).trunc(8)) for k in range(8) for j in range(4))
                    except Unsupported as e:
                        rep.undecide(inst, e)
                        continue
                    rep.check(good, "digest is the final state in big-endian order", inst, p.fn.where(), "digest bytes differ")
