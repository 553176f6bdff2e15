"""Stored records and text codecs: what is written is what is read back; failures are reported."""
from vlib.heap import *
from checks.p15 import setsa, SA, isval, ld, orig, free_of

LEVEL = "bounded"


def run(rep):
    for part in (strings, arrays, keypoints, brief, quoting, unquoting, lines, matrices, plain):
        try:
            part(rep)
        except Unsupported as e:
            rep.undecide(part.__name__, e)
    for r, n in (("string record", 60), ("string array record", 60), ("keypoint record", 60), ("BRIEF record", 20), ("quoted text", 200), ("line input", 40), ("matrix text", 40), ("file operation", 40)):
        rep.need(r, n)


def case(rep, rule, m, fn, inst, init=None, args=None, ctx=None, fail=None, opaque=None, judge=None, roots=(), keep=(), leak=True, returns=True, **kw):
    """evaluate one instance; judge every way in which it returns; result: (case, number of returning paths)"""
    ctx = ctx or Ctx()
    ctx.fail_at = fail
    try:
        c = HCase(m, fn, init=init, ctx=ctx, argvals={k: (R.const(ctx, v) if isinstance(v, (int, Fraction)) else Ptr(v[0], R.const(ctx, v[1])) if isinstance(v, tuple) else v) for k, v in (args or {}).items()}, opaque=opaque, **kw)
    except Unsupported as e:
        if "never returns" in str(e):
            if fail is None and returns:
                rep.check(False, rule, inst, fn, "the call never returns")
            return None
        rep.undecide(inst, e)
        return None
    for st in c.parts:
        try:
            if leak:
                sound(rep, rule, inst, c, st, roots, keep)
            if judge:
                judge(c, st)
        except Unsupported as e:
            rep.undecide(inst, e)
    return c


def never(rep, rule, m, fn, inst, why, init=None, args=None, ctx=None, fail=None, opaque=None, **kw):
    """the instance must end in the fatal-error handler on every path"""
    ctx = ctx or Ctx()
    ctx.fail_at = fail
    try:
        c = HCase(m, fn, init=init, ctx=ctx, argvals={k: (R.const(ctx, v) if isinstance(v, (int, Fraction)) else v) for k, v in (args or {}).items()}, opaque=opaque, **kw)
    except Unsupported as e:
        if "never returns" in str(e):
            rep.check(True, rule, inst, fn, "")
        else:
            rep.undecide(inst, e)
        return
    rep.check(False, rule, inst, c.fn.where(), why)


def replay(tp):
    """initial state: the stream holds what an earlier case wrote"""
    def init(p, st):
        chain, n = tp
        if chain is not None:
            st.mem[tbase("stream")] = chain
        st.events.append(("load", "stream", n))
    return init


def taken(c, st):
    return st.mem.get(tbase("stream")), tape(st, "stream")[0]


def strings(rep):
    rule = "string record"
    m = kernels([(f, f, None) for f in ("nx_strwrite", "nx_strread", "nx_strread0")], name="p16s")
    for n in (0, 1, 2, 5):
        T = ["t%d" % k for k in range(n)]
        inst = "string of %d characters" % n
        ctx = Ctx()
        c = case(rep, rule, m, "nx_strwrite", inst + " written", lambda p, st: mkstr(p, st, "s", T), ctx=ctx, roots=("s",),
                 judge=lambda c, st: rep.check(isval(st.ret, c.K(0)), rule, inst + ": write succeeds", c.fn.where(), "returns %s" % st.ret))
        if c is None or len(c.parts) != 1:
            continue
        tp = taken(c, c.parts[0])
        cons = c.parts[0].cons
        for k in range(2):
            if k == 1 and n == 0:
                continue
            case(rep, rule, m, "nx_strwrite", inst + ", write %d fails" % k, lambda p, st: mkstr(p, st, "s", T), fail=k, roots=("s",),
                 judge=lambda c, st: rep.check(not isval(st.ret, c.K(0)), rule, inst + ", write %d fails: reported" % k, c.fn.where(), "returns success"))

        def r0(p, st):
            replay(tp)(p, st)
            st.cons = list(cons)
        case(rep, rule, m, "nx_strread0", inst + " read back", r0, ctx=ctx, judge=lambda c, st: rep.check(samestr(c, getstr(c, st, st.ret), T), rule, inst + ": read back", c.fn.where(), "reads %s" % (getstr(c, st, st.ret),)))
        for k in range(2):
            if k == 1 and n == 0:
                continue
            case(rep, rule, m, "nx_strread0", inst + ", read %d fails" % k, r0, ctx=ctx, fail=k,
                 judge=lambda c, st: rep.check(isinstance(st.ret, Ptr) and st.ret.base == "null", rule, inst + ", read %d fails: reported" % k, c.fn.where(), "returns %s" % (st.ret,)))
        for cut in range(tp[1]):
            case(rep, rule, m, "nx_strread0", inst + ", stream ends after %d bytes" % cut, lambda p, st: (replay((tp[0], cut))(p, st), setattr(st, "cons", list(cons))), ctx=ctx,
                 judge=lambda c, st: rep.check(isinstance(st.ret, Ptr) and st.ret.base == "null", rule, inst + ", stream ends after %d bytes: reported" % cut, c.fn.where(), "returns %s" % (st.ret,)))
        for size in (0, 1, n, n + 1, n + 4):
            i2 = inst + " into a buffer of %d bytes" % size

            def r1(p, st):
                r0(p, st)
                register(p, st, "s", 8)
                q = Ptr("null", p.K(0))
                if size:
                    register(p, st, "heapb", size)
                    q = Ptr("heapb", p.K(0))
                st.mem["s"] = Entry("store", p.K(0), 8, q, None)
            case(rep, rule, m, "nx_strread", i2, r1, {1: size}, ctx=ctx, roots=("s",), judge=lambda c, st: rep.check(isval(st.ret, c.K(0)) and samestr(c, getstr(c, st, ld(c, st, "s", 0, 8, "ptr")), T), rule, i2 + ": read back", c.fn.where(), "returns %s, reads %s" % (st.ret, getstr(c, st, ld(c, st, "s", 0, 8, "ptr")))))


def elems(c, st, base):
    g = lambda f, ty: get_field(c.p, st, base, SA, f, ty)
    n, el = g("size", "i32"), g("elems", "ptr")
    if not n.is_const() or not isinstance(el, Ptr):
        return None
    return [getstr(c, st, ld(c, st, el.base, 8 * k, 8, "ptr")) for k in range(int(n.cval()))]


def arrays(rep):
    rule = "string array record"
    m = kernels([(f, "nx_string_array_" + f, None) for f in ("write", "read", "read0", "xwrite", "xread", "xread0")], name="p16a")
    A, B, E = ["a0", "a1"], ["b0"], []
    for strs in ([], [E], [A], [A, B], [B, E, A]):
        inst = "array of %d strings" % len(strs)
        init = lambda p, st: setsa(p, st, "sa", strs, 4)
        ctx = Ctx()
        c = case(rep, rule, m, "write", inst + " written", init, ctx=ctx, roots=("sa",), judge=lambda c, st: rep.check(isval(st.ret, c.K(0)), rule, inst + ": write succeeds", c.fn.where(), "returns %s" % st.ret))
        if c is None or len(c.parts) != 1:
            continue
        st0 = c.parts[0]
        tp, cons, ops = taken(c, st0), st0.cons, nth(st0)

        def same(c, st, base, what):
            got = elems(c, st, base)
            rep.check(got is not None and len(got) == len(strs) and all(samestr(c, g, w) for g, w in zip(got, strs)), rule, what, c.fn.where(), "reads %s" % got)

        def rd(p, st, cut=None):
            replay((tp[0], tp[1] if cut is None else cut))(p, st)
            st.cons = list(cons)
        case(rep, rule, m, "read0", inst + " read back", rd, ctx=ctx, judge=lambda c, st: same(c, st, st.ret.base, inst + ": read back"))
        for old in ([], [["o0"]], [["o0"], ["o1", "o2"], [], ["o3"]]):
            i2 = inst + " read over an array of %d" % len(old)

            def ro(p, st):
                rd(p, st)
                setsa(p, st, "sa", old, max(2, len(old)))
            case(rep, rule, m, "read", i2, ro, ctx=ctx, roots=("sa",), judge=lambda c, st: (rep.check(isval(st.ret, c.K(0)), rule, i2 + ": succeeds", c.fn.where(), "returns %s" % st.ret), same(c, st, "sa", i2 + ": contents")))
        for k in range(ops):
            if any(e[0] == "io" and e[1] == k for e in st0.events):
                case(rep, rule, m, "write", inst + ", write %d fails" % k, init, fail=k, roots=("sa",), judge=lambda c, st: rep.check(not isval(st.ret, c.K(0)), rule, inst + ", write %d fails: reported" % k, c.fn.where(), "returns success"))
        for cut in range(tp[1]):
            i3 = inst + ", stream ends after %d bytes" % cut
            case(rep, rule, m, "read0", i3, lambda p, st: rd(p, st, cut), ctx=ctx, judge=lambda c, st: rep.check(isinstance(st.ret, Ptr) and st.ret.base == "null", rule, i3 + ": reported", c.fn.where(), "returns an array"))
            never(rep, rule, m, "xread0", i3 + ": fatal", "returns although the stream is too short", lambda p, st: rd(p, st, cut), ctx=ctx)
    for bad in (-1, -2):
        inst = "array record with length %d" % bad

        def rb(p, st):
            st.mem[tbase("stream")] = Entry("store", p.K(0), 4, p.K(bad), None)
            st.events.append(("load", "stream", 4))
        case(rep, rule, m, "read0", inst, rb, judge=lambda c, st: rep.check(isinstance(st.ret, Ptr) and st.ret.base == "null", rule, inst + ": reported", c.fn.where(), "returns an array"))


KEY = (("x", 4, "i32"), ("y", 4, "i32"), ("xs", 4, "float"), ("ys", 4, "float"), ("level", 4, "i32"), ("scale", 4, "float"), ("sigma", 4, "float"), ("score", 4, "float"), ("ori", 4, "float"), ("id", 8, "i64"))


def keypoints(rep):
    rule = "keypoint record"
    m = kernels([(f, "nx_keypoint_" + f, None) for f in ("write", "read", "xwrite", "xread")], name="p16k")
    for n in (0, 1, 2):
        inst = "%d keypoints" % n
        ctx = Ctx()
        iw = lambda p, st: register(p, st, "key", 48 * n)
        c = case(rep, rule, m, "write", inst + " written", iw, {1: n}, ctx=ctx, judge=lambda c, st: rep.check(isval(st.ret, c.K(n)), rule, inst + ": all written", c.fn.where(), "returns %s" % st.ret), roots=("key",))
        if c is None or len(c.parts) != 1:
            continue
        tp, ops = taken(c, c.parts[0]), nth(c.parts[0])

        def rd(p, st, cut=None):
            replay((tp[0], tp[1] if cut is None else cut))(p, st)
            register(p, st, "out", 48 * n)

        def j(c, st):
            rep.check(isval(st.ret, c.K(n)), rule, inst + ": all read", c.fn.where(), "returns %s" % st.ret)
            for k in range(n):
                for f, sz, ty in KEY:
                    off, _ = field_off(c.p, "NXKeypoint", f)
                    g, w = ld(c, st, "out", 48 * k + off, sz, ty), orig(c, "key", 48 * k + off, sz, ty)
                    rep.check(isval(g, w), rule, inst + ": field %s read back" % f, c.fn.where(), "keypoint %d: %s is read as %s instead of %s" % (k, f, g, w))
        case(rep, rule, m, "read", inst + " read back", rd, {0: ("out", 0), 1: n}, ctx=ctx, judge=j, roots=("out",))
        for k in range(ops):
            case(rep, rule, m, "write", inst + ", write %d fails" % k, iw, {1: n}, fail=k, roots=("key",), judge=lambda c, st: rep.check(isinstance(st.ret, R) and st.ret.is_const() and st.ret.cval() < n, rule, inst + ", write %d fails: reported" % k, c.fn.where(), "returns %s" % st.ret))
            never(rep, rule, m, "xwrite", inst + ", write %d fails: fatal" % k, "returns although a write failed", iw, {1: n}, fail=k)
        for cut in range(0, tp[1], 3):
            i3 = inst + ", stream ends after %d bytes" % cut
            per = tp[1] // n
            case(rep, rule, m, "read", i3, lambda p, st: rd(p, st, cut), {0: ("out", 0), 1: n}, ctx=ctx, roots=("out",), judge=lambda c, st: rep.check(isval(st.ret, c.K(cut // per)), rule, i3 + ": complete records counted", c.fn.where(), "returns %s" % st.ret))
            never(rep, rule, m, "xread", i3 + ": fatal", "returns although the stream is too short", lambda p, st: rd(p, st, cut), {0: Ptr("out", R.const(ctx, 0)), 1: n}, ctx=ctx)


def brief(rep):
    rule = "BRIEF record"
    B = "NXBriefExtractor"
    m = kernels([(f, "nx_brief_extractor_" + f, None) for f in ("write", "read", "xwrite", "xread")], opaque=["nx_brief_extractor_update_limits", "nx_brief_extractor_randomize"], name="p16b")
    for n in (1, 2):
        inst = "extractor with %d octets" % n
        no = 32 * n
        ctx = Ctx()
        osz = 4

        def setb(p, st, b, k, data, radius, lvl):
            register(p, st, b, 64)
            if k:
                register(p, st, data, k * 32 * osz)
            for f, v in (("n_octets", p.K(k)), ("radius", radius), ("pyr_level_offset", lvl), ("offsets", Ptr(data, p.K(0)) if k else Ptr("null", p.K(0)))):
                set_field(p, st, b, B, f, v)
        iw = lambda p, st: setb(p, st, "be", n, "heapo", p.V("radius"), p.V("lvl"))
        c = case(rep, rule, m, "write", inst + " written", iw, ctx=ctx, roots=("be",), judge=lambda c, st: rep.check(isval(st.ret, c.K(0)), rule, inst + ": write succeeds", c.fn.where(), "returns %s" % st.ret))
        if c is None or len(c.parts) != 1:
            continue
        tp, ops = taken(c, c.parts[0]), nth(c.parts[0])
        upd = {"nx_brief_extractor_update_limits": lambda p, i, st, a: st.events.append(("limits", a[0].base)), "nx_brief_extractor_randomize": none}
        for old in (0, 1, 3):
            i2 = inst + " read over one with %d" % old

            def rd(p, st, cut=None):
                replay((tp[0], tp[1] if cut is None else cut))(p, st)
                setb(p, st, "out", old, "heapq", p.V("radius0"), p.V("lvl0"))

            def j(c, st):
                g = lambda f, ty="i32": get_field(c.p, st, "out", B, f, ty)
                rep.check(isval(st.ret, c.K(0)) and isval(g("n_octets"), c.K(n)) and isval(g("radius"), c.V("radius")) and isval(g("pyr_level_offset"), c.V("lvl")), rule, i2 + ": parameters read back", c.fn.where(), "returns %s: %s octets, radius %s, level offset %s" % (st.ret, g("n_octets"), g("radius"), g("pyr_level_offset")))
                q = g("offsets", "ptr")
                rep.check(all(isval(ld(c, st, q.base, osz * k, osz, "i32"), orig(c, "heapo", osz * k, osz, "i32")) for k in range(no)), rule, i2 + ": offsets read back", c.fn.where(), "an offset differs")
                rep.check(any(e[0] == "limits" for e in st.events), rule, i2 + ": limits follow the offsets", c.fn.where(), "the limits are not updated")
            case(rep, rule, m, "read", i2, rd, {0: ("out", 0)}, ctx=ctx, opaque=upd, judge=j, roots=("out",), pre=lambda p: [(p.V("radius"), POS)])
        for bn, br in ((-1, 5), (0, 5), (1, -1), (1, 0)):
            i4 = inst + " read over from a record with %d octets and radius %d" % (bn, br)

            def rb(p, st):
                setb(p, st, "out", n, "heapq", p.V("radius0"), p.V("lvl0"))
                st.mem[tbase("stream")] = Entry("store", p.K(0), 4, p.K(br), Entry("store", p.K(4), 4, p.K(bn), None))
                st.events.append(("load", "stream", 8 + 4 * no + 4))
            case(rep, rule, m, "read", i4, rb, {0: ("out", 0)}, opaque=upd, roots=("out",), judge=lambda c, st: rep.check(not isval(st.ret, c.K(0)), rule, i4 + ": reported", c.fn.where(), "returns success"))
        for k in range(ops):
            case(rep, rule, m, "write", inst + ", write %d fails" % k, iw, fail=k, roots=("be",), judge=lambda c, st: rep.check(not isval(st.ret, c.K(0)), rule, inst + ", write %d fails: reported" % k, c.fn.where(), "returns %s" % st.ret))
            never(rep, rule, m, "xwrite", inst + ", write %d fails: fatal" % k, "returns although a write failed", iw, fail=k)
        for cut in list(range(0, 12, 3)) + [tp[1] - 1]:
            if cut >= tp[1]:
                continue
            i3 = inst + ", stream ends after %d bytes" % cut
            case(rep, rule, m, "read", i3, lambda p, st: rd(p, st, cut), {0: ("out", 0)}, ctx=ctx, opaque=upd, roots=("out",), judge=lambda c, st: rep.check(not isval(st.ret, c.K(0)), rule, i3 + ": reported", c.fn.where(), "returns success"))
            never(rep, rule, m, "xread", i3 + ": fatal", "returns although the stream is too short", lambda p, st: rd(p, st, cut), {0: Ptr("out", R.const(ctx, 0))}, ctx=ctx, opaque=upd)


ESC = {10: "n", 13: "r", 9: "t", 8: "b", 12: "f", 34: '"', 92: "\\"}


def texts(special):
    """strings of up to three characters: special ones and symbolic ordinary ones"""
    import itertools
    out = [()]
    for n in (1, 2):
        out += list(itertools.product(list(special) + ["c"], repeat=n))
    for s in special:
        out += [(s, "c", s), ("c", s, "c"), (s, s, "c")]
    return [tuple("c%d" % k if x == "c" else x for k, x in enumerate(t)) for t in out]


def ordinary(p, st, names, special):
    for nm in names:
        v = p.V(nm)
        for s in special:
            st.cons = p.assume(st.cons, v - s, NEG | POS)


def quoting(rep):
    rule = "quoted text"
    m = kernels([(f, f, None) for f in ("nx_fputs_readable", "nx_fputs_double_quoted", "nx_xstr_from_readable", "nx_xstr_from_double_quoted")], name="p16q")
    for wr, rd, enc in (("nx_fputs_readable", "nx_xstr_from_readable", {k: [92, ord(v)] for k, v in ESC.items()}), ("nx_fputs_double_quoted", "nx_xstr_from_double_quoted", {34: [34, 34]})):
        for t in texts(enc):
            inst = "%s(%s)" % (wr, "".join(chr(x) if isinstance(x, int) else x for x in t).encode("unicode_escape").decode())
            names = [x for x in t if isinstance(x, str)]

            def init(p, st):
                mkstr(p, st, "s", t)
                ordinary(p, st, names, enc)
            want = [34] + [y for x in t for y in (enc.get(x, [x]) if not isinstance(x, str) else [x])] + [34]
            ctx = Ctx()

            def j(c, st):
                got = written(c, st)
                rep.check(isval(st.ret, c.K(0)) and samestr(c, got, want), rule, inst + ": text", c.fn.where(), "writes %s, returns %s" % ([str(g) for g in got], st.ret))
            c = case(rep, rule, m, wr, inst, init, ctx=ctx, roots=("s",), judge=j)
            if c is None or len(c.parts) != 1:
                continue
            st0 = c.parts[0]
            got = written(c, st0)
            inner = got[1:-1]

            def ri(p, st):
                register(p, st, "text", len(inner))
                for k, b in enumerate(inner):
                    st.mem["text"] = Entry("store", p.K(k), 1, b, st.mem.get("text"))
                st.cons = list(st0.cons)
            i2 = inst + " decoded"
            r = case(rep, rule, m, rd, i2, ri, {0: len(inner), 1: ("text", 0)}, ctx=ctx, roots=("text",), judge=lambda c, st: rep.check(samestr(c, getstr(c, st, st.ret), t), rule, i2 + ": original text", c.fn.where(), "decodes to %s" % (getstr(c, st, st.ret),)))
            rep.check(r is not None or any(inst_ == i2 for inst_, _ in rep.undecided), rule, i2 + ": accepted", rd, "%s rejects what %s writes" % (rd, wr))
            for k in range(nth(st0)):
                case(rep, rule, m, wr, inst + ", write %d fails" % k, init, fail=k, roots=("s",), judge=lambda c, st: rep.check(not isval(st.ret, c.K(0)), rule, inst + ", write %d fails: reported" % k, c.fn.where(), "returns success"))


def unquoting(rep):
    rule = "quoted text"
    m = kernels([(f, f, None) for f in ("nx_xstr_from_readable", "nx_xstr_from_double_quoted")], name="p16u")

    def text(t, names, special):
        def init(p, st):
            register(p, st, "text", len(t))
            for k, x in enumerate(t):
                st.mem["text"] = Entry("store", p.K(k), 1, p.V(x) if isinstance(x, str) else p.K(x), st.mem.get("text"))
            ordinary(p, st, names, special)
        return init
    rd = "nx_xstr_from_readable"
    for e, v in [(ord(v), k) for k, v in ESC.items()] + [(ord("/"), ord("/"))]:
        for t, want in (([92, e], [v]), (["c0", 92, e], ["c0", v]), ([92, e, "c0"], [v, "c0"]), ([92, e, 92, e], [v, v])):
            inst = "%s(%s)" % (rd, "".join(chr(x) if isinstance(x, int) else x for x in t))
            r = case(rep, rule, m, rd, inst, text(t, [x for x in t if isinstance(x, str)], [92, 0]), {0: len(t), 1: ("text", 0)}, roots=("text",), judge=lambda c, st: rep.check(samestr(c, getstr(c, st, st.ret), want), rule, inst + ": decoded", c.fn.where(), "decodes to %s" % (getstr(c, st, st.ret),)))
            rep.check(r is not None or any(x == inst for x, _ in rep.undecided), rule, inst + ": accepted", rd, "rejects a legal escape sequence")
    for t in ([92], ["c0", 92], [92, ord("q")], [92, ord("x"), "c0"], [92, 92, 92]):
        never2(rep, rule, m, rd, t, text)
    rd = "nx_xstr_from_double_quoted"
    for t in ([34], ["c0", 34], [34, ord("a")], [34, 34, 34], [34, 92]):
        never2(rep, rule, m, rd, t, text, [34])


def never2(rep, rule, m, rd, t, text, special=(92, 0)):
    ctx = Ctx()
    never(rep, rule, m, rd, "%s(%s): rejected" % (rd, t), "accepts a malformed text", text(t, [x for x in t if isinstance(x, str)], special), {0: len(t), 1: Ptr("text", R.const(ctx, 0))}, ctx=ctx)


def lines(rep):
    """nx_getline: one line with its newline, -1 at the end"""
    rule = "line input"
    fn = "nx_getline"
    m = kernels([(fn, fn, None)], name="p16l")
    for n in (0, 1, 2, 3, 5, 9):
        for end in ("\n", "end", "more"):
            for cap in (0, 1, 4, n, n + 1, n + 2, 16):
                L = ["l%d" % k for k in range(n)]
                data = L + ([10] if end != "end" else []) + (["x", "y"] if end == "more" else [])
                inst = "%s(%d characters%s, buffer of %d)" % (fn, n, {"\n": " and a newline", "end": " before the end", "more": ", a newline and more"}[end], cap)

                def init(p, st):
                    give(p, st, "stream", data)
                    ordinary(p, st, [x for x in data if isinstance(x, str)], [10, -1, 0])
                    register(p, st, "line", 8)
                    register(p, st, "n", 8)
                    q = Ptr("null", p.K(0))
                    if cap:
                        register(p, st, "heapb", cap)
                        q = Ptr("heapb", p.K(0))
                    st.mem["line"] = Entry("store", p.K(0), 8, q, None)
                    st.mem["n"] = Entry("store", p.K(0), 8, p.K(cap), None)
                want = L + ([10] if end != "end" else [])

                def j(c, st):
                    q = ld(c, st, "line", 0, 8, "ptr")
                    if not want:
                        rep.check(isval(st.ret, c.K(-1)), rule, inst + ": end of input", c.fn.where(), "returns %s at the end of the stream" % st.ret)
                    else:
                        got = getstr(c, st, q)
                        rep.check(isval(st.ret, c.K(len(want))) and samestr(c, got, want), rule, inst + ": the line", c.fn.where(), "returns %s, reads %s" % (st.ret, got))
                    k = ld(c, st, "n", 0, 8, "i64")
                    b = block(st, q.base)
                    rep.check(q.base == "null" and isval(k, c.K(0)) or b is not None and b[1] and b[0].is_const() and k.is_const() and b[0].cval() >= k.cval(), rule, inst + ": buffer size", c.fn.where(), "says %s bytes, the buffer has %s" % (k, b and b[0]))
                    rep.check(tape(st, "stream")[1] == len(want), rule, inst + ": consumes the line only", c.fn.where(), "consumes %d bytes" % tape(st, "stream")[1])
                case(rep, rule, m, fn, inst, init, {0: ("line", 0), 1: ("n", 0)}, roots=("line", "n"), judge=j)


def matrices(rep):
    """nx_dmat_xwrite then nx_dmat_xread gives the same matrix, column-major both ways"""
    rule = "matrix text"
    m = kernels([(f, f, None) for f in ("nx_dmat_xwrite", "nx_dmat_xread")], name="p16m")
    for r, k in ((1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 3)):
        inst = "%dx%d matrix" % (r, k)
        ctx = Ctx()
        c = case(rep, rule, m, "nx_dmat_xwrite", inst + " written", lambda p, st: register(p, st, "A", 8 * r * k), {1: r, 2: k}, ctx=ctx, roots=("A",))
        if c is None or len(c.parts) != 1:
            continue
        st0 = c.parts[0]
        got = written(c, st0)
        shown = {orig(c, "A", 8 * j, 8, "double").show(): orig(c, "A", 8 * j, 8, "double") for j in range(r * k)}
        nums = [ctx.numbers[g.show()] for g in got if g.show() in ctx.__dict__.get("numbers", {})]
        ok = all(f in EXACT for f, v in nums)
        rep.check(ok, rule, inst + ": all digits are written", c.fn.where(), "the elements are printed with fewer than 17 significant digits: %s" % [g.show() for g in got][:1])
        rep.check(len({v.show() for f, v in nums} & set(shown)) == r * k, rule, inst + ": every element is written", c.fn.where(), "%d of %d elements are written" % (len(nums), r * k))

        def rd(p, st):
            replay(taken(c, st0))(p, st)
            st.cons = list(st0.cons)
            for s in ctx.numbers:
                for ch in (10, -1, 0):
                    st.cons = p.assume(st.cons, p.V(s) - ch, NEG | POS)
            register(p, st, "m", 4)
            register(p, st, "n", 4)

        def j(c, st):
            mm, nn = ld(c, st, "m", 0, 4, "i32"), ld(c, st, "n", 0, 4, "i32")
            rep.check(isval(mm, c.K(r)) and isval(nn, c.K(k)), rule, inst + ": size read back", c.fn.where(), "reads a %s x %s matrix" % (mm, nn))
            q = st.ret
            good = isinstance(q, Ptr) and q.base != "null" and all(isval(ld(c, st, q.base, 8 * j, 8, "double"), orig(c, "A", 8 * j, 8, "double")) for j in range(r * k))
            rep.check(good, rule, inst + ": elements read back", c.fn.where(), "an element differs")
        case(rep, rule, m, "nx_dmat_xread", inst + " read back", rd, {1: ("m", 0), 2: ("n", 0)}, ctx=ctx, roots=("m", "n"), judge=j, deadline=60)


def plain(rep):
    """opening, closing, block transfer: the stream asked for, nothing lost silently"""
    rule = "file operation"
    fns = ("nx_xfopen", "nx_fopen", "nx_xfclose", "nx_fclose", "nx_xfwrite", "nx_xfread")
    m = kernels([(f, f, None) for f in fns], name="p16f")
    OK = 0    # NX_OK

    def sess(inst):
        def op(p, i, st, a):
            st.events.append(("asked", tuple(x.show() for x in cstr(p, st, a[0]))))
            return fopen(p, i, st, a)
        return Session(rep, rule, m, inst, opaque={"fopen": op})

    def fatal(s, fn, *a, **kw):
        try:
            r = s.fatal(fn, *a, **kw)
            rep.check(r, rule, s.inst, m.fn(fn).where() if hasattr(m, "fn") else fn, "the failure is not noticed")
        except Unsupported as e:
            rep.undecide(s.inst, e)
    for mode in ("r", "w", "rb", "wb"):
        for x in (False, True):
            inst = "nx_%sfopen(%s)" % ("x" * x, mode)
            try:
                s = sess(inst)
                q = s.call("nx_xfopen" if x else "nx_fopen", s.text(["n0", "n1"]), s.text(mode))
                ev = [e for e in s.events if e[0] in ("asked", "open")]
                s.ok(isinstance(q, Ptr) and q.base == "stream" and [e[1] for e in ev if e[0] == "asked"] == [("n0", "n1")] and [e[2] for e in ev if e[0] == "open"] == [mode], "stream", "opens %s, returns %s" % (ev, q))
                if x:
                    s = sess(inst + " of a file that cannot be opened")
                    fatal(s, "nx_xfopen", s.text(["n0", "n1"]), s.text(mode), fail=0)
                else:
                    s = sess(inst + " of a file that cannot be opened")
                    q = s.call("nx_fopen", s.text(["n0", "n1"]), s.text(mode), fail=0)
                    s.ok(isinstance(q, Ptr) and q.base == "null", "null", "returns %s" % (q,))
            except Fatal as e:
                rep.check(False, rule, inst, str(e), "%s ends the program" % e)
            except Unsupported as e:
                rep.undecide(inst, e)
    for n, sz in ((0, 1), (1, 1), (3, 1), (1, 8), (2, 4)):
        inst = "%d items of %d bytes" % (n, sz)
        try:
            s = sess(inst)
            f = s.call("nx_xfopen", s.text(["n0"]), s.text("wb"))
            b = s.buf(n * sz, "heapsrc")
            s.call("nx_xfwrite", b, sz, n, f)
            s.ok(sum(e[2] for e in s.events if e[0] == "wr") == n * sz, "written", "writes %s bytes" % [e[2] for e in s.events if e[0] == "wr"])
            s.call("nx_xfclose", f, s.text(["n0"]))
            s.ok(sum(e[0] == "closed" for e in s.events) == 1, "closed", "stream is closed %d times" % sum(e[0] == "closed" for e in s.events))
            f = s.call("nx_xfopen", s.text(["n0"]), s.text("rb"))
            d = s.buf(n * sz, "heapdst")
            s.call("nx_xfread", d, sz, n, f)
            s.ok(all(isval(s.load(d, k, 1, "i8"), s.load(b, k, 1, "i8")) for k in range(n * sz)), "read back", "differs")
            r = s.call("nx_fclose", f, s.text(["n0"]))
            s.ok(isval(r, s.K(OK)), "closing reports success", "returns %s" % r)
            s.ok(sum(e[0] == "closed" for e in s.events) == 2, "closed again", "stream is closed %d times" % sum(e[0] == "closed" for e in s.events))
        except Fatal as e:
            rep.check(False, rule, inst, str(e), "%s ends the program" % e)
        except Unsupported as e:
            rep.undecide(inst, e)
        if n:
            for op in ("nx_xfwrite", "nx_xfread"):
                for short in range(2):
                    s = sess("%s of %s, %s" % (op, inst, "operation fails" if short else "file too short"))
                    if op == "nx_xfwrite" and not short:
                        continue
                    try:
                        f = s.call("nx_xfopen", s.text(["n0"]), s.text("wb"))
                        b = s.buf(n * sz, "heapsrc")
                        if op == "nx_xfread":
                            if short:
                                s.call("nx_xfwrite", b, sz, n, f)
                            elif n * sz > 1:
                                s.call("nx_xfwrite", b, 1, n * sz - 1, f)
                            s.call("nx_xfclose", f, s.text(["n0"]))
                            f = s.call("nx_xfopen", s.text(["n0"]), s.text("rb"))
                        k = sum(e[0] == "io" for e in s.events)
                        fatal(s, op, b, sz, n, f, fail=k if short else None)
                    except Fatal as e:
                        rep.check(False, rule, s.inst, str(e), "%s ends the program" % e)
                    except Unsupported as e:
                        rep.undecide(s.inst, e)
    # an error seen before or while closing
    for when in ("writing", "closing"):
        for x in (False, True):
            s = sess("nx_%sfclose after an error while %s" % ("x" * x, when))
            try:
                f = s.call("nx_xfopen", s.text(["n0"]), s.text("wb"))
                s.todo.append(lambda p, st: st.events.append(("io", 1, "")))
                k = 1 if when == "writing" else 2
                if x:
                    fatal(s, "nx_xfclose", f, s.text(["n0"]), fail=k)
                else:
                    r = s.call("nx_fclose", f, s.text(["n0"]), fail=k)
                    s.ok(isinstance(r, R) and r.is_const() and r.cval() != OK, "reported", "returns %s" % r)
                    s.ok(sum(e[0] == "closed" for e in s.events) == 1, "closed", "stream is closed %d times" % sum(e[0] == "closed" for e in s.events))
            except Fatal as e:
                rep.check(False, rule, s.inst, str(e), "%s ends the program" % e)
            except Unsupported as e:
                rep.undecide(s.inst, e)
