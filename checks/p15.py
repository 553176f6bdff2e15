"""Containers and strings own their memory exactly: blocks, vectors, string arrays, graphs, strings."""
from vlib.heap import *

LEVEL = "bounded"
MB = "NXMemBlock"
ITEM = None


def run(rep):
    for part in (blocks, vectors, arrays, graphs, strings, formatted, pieces):
        try:
            part(rep)
        except Unsupported as e:
            rep.undecide(part.__name__, e)
    for r, n in (("memory block", 200), ("keypoint vector", 150), ("string array", 150), ("graph", 60), ("string", 60), ("formatted string", 25), ("gathering copy", 60)):
        rep.need(r, n)


def free_of(c, st):
    return {e[1] for e in st.events if e[0] == "released"}


def ld(c, st, base, k, size=1, ty="i8"):
    return c.p._load(st, st.mem.get(base), base, c.K(k), size, ty)


def orig(c, base, k, size=1, ty="i8"):
    return c.p._load(None, None, base, c.K(k), size, ty)


def isval(v, w):
    return isinstance(v, R) and v.same(w)


def same_bytes(c, st, got, base, n):
    """the first n bytes at pointer got are the bytes base held before the call"""
    if not isinstance(got, Ptr):
        return False
    if n and got.base == "null":
        return False
    for k in range(n):
        v = c.p._load(st, st.mem.get(got.base), got.base, got.off + k, 1, "i8")
        if not isval(v, orig(c, base, k)):
            return False
    return True


def setmb(p, st, base, data, size, cap, own):
    register(p, st, base, 32)
    if cap:
        register(p, st, data, cap)
    for f, v in (("ptr", Ptr(data, p.K(0)) if cap else Ptr("null", p.K(0))), ("size", p.K(size)), ("capacity", p.K(cap)), ("own_memory", p.K(own))):
        set_field(p, st, base, MB, f, v)


def getmb(c, st, base):
    g = lambda f, ty: get_field(c.p, st, base, MB, f, ty)
    return g("ptr", "ptr"), g("size", "i64"), g("capacity", "i64"), g("own_memory", "i32")


def wellformed(rep, rule, inst, c, st, base, size, borrowed=()):
    """size as asked, capacity backed by a live block of that many bytes, ownership flag tells the truth"""
    q, s, cap, own = getmb(c, st, base)
    where = c.fn.where()
    rep.check(isval(s, c.K(size)), rule, inst + ": size", where, "size becomes %s instead of %d" % (s, size))
    ok = isinstance(cap, R) and cap.is_const() and isinstance(q, Ptr)
    rep.check(ok and cap.cval() >= size, rule, inst + ": capacity covers size", where, "capacity %s for size %d" % (cap, size))
    if not ok:
        return q, cap, own
    if q.base == "null":
        rep.check(cap.cval() == 0, rule, inst + ": capacity is backed by memory", where, "capacity %s of a null block" % cap)
    else:
        b = block(st, q.base)
        rep.check(b is not None and b[1] and b[0].is_const() and q.off.same(c.K(0)) and b[0].cval() >= cap.cval(), rule, inst + ": capacity is backed by memory", where, "capacity %s, block %s of %s bytes, %s" % (cap, q.base, b and b[0], "alive" if b and b[1] else "released"))
        truth = 0 if q.base in borrowed else 1
        rep.check(isval(own, c.K(truth)), rule, inst + ": ownership flag", where, "own_memory is %s although the block is %s" % (own, "borrowed" if not truth else "its own"))
    return q, cap, own


def blocks(rep):
    rule = "memory block"
    fns = ["alloc", "new", "free", "reserve", "resize", "release", "wrap", "swap", "copy0", "copy", "set_zero"]
    m = kernels([(f, "nx_mem_block_" + f, None) for f in fns], name="p15m")

    def go(fn, inst, init, args, judge, roots=("mem",), keep=()):
        ctx = Ctx()
        try:
            c = HCase(m, fn, init=init, ctx=ctx, argvals={k: R.const(ctx, v) for k, v in args.items()})
            for st in c.parts:
                sound(rep, rule, inst, c, st, roots, keep)
                judge(c, st)
        except Unsupported as e:
            rep.undecide(inst, e)

    def j_alloc(c, st, n):
        inst = "nx_mem_block_new(%d)" % n if n is not None else "nx_mem_block_alloc"
        wellformed(rep, rule, inst, c, st, st.ret.base, n or 0)
    go("alloc", "nx_mem_block_alloc", None, {}, lambda c, st: j_alloc(c, st, None))
    for n in (0, 1, 5, 4096):
        go("new", "nx_mem_block_new(%d)" % n, None, {0: n}, lambda c, st: j_alloc(c, st, n))
    states = [(0, 0, 0), (0, 3, 1), (2, 3, 1), (3, 3, 1), (0, 3, 0), (2, 3, 0), (3, 3, 0)]
    for s, k, own in states:
        what = "block with %d of %d bytes, %s" % (s, k, "owned" if own else "borrowed" if k else "empty")
        ini = lambda p, st: setmb(p, st, "mem", "heapD", s, k, own)
        keep = () if own else ("heapD",)
        bor = () if own else ("heapD",)

        def untouched(inst, c, st):
            if not own and k:
                rep.check("heapD" not in free_of(c, st), rule, inst + ": borrowed memory is left to its owner", c.fn.where(), "memory the block does not own is released")

        def j_free(c, st):
            inst = "nx_mem_block_free(%s)" % what
            untouched(inst, c, st)
            rep.check("mem" in free_of(c, st) and (not own or "heapD" in free_of(c, st)), rule, inst + ": released", c.fn.where(), "released only %s" % sorted(free_of(c, st)))
        go("free", "nx_mem_block_free(%s)" % what, ini, {}, j_free, (), keep)

        def j_release(c, st):
            inst = "nx_mem_block_release(%s)" % what
            untouched(inst, c, st)
            q, cap, o = wellformed(rep, rule, inst, c, st, "mem", 0)
            rep.check(isinstance(q, Ptr) and q.base == "null" and isval(o, c.K(0)), rule, inst + ": empty afterwards", c.fn.where(), "pointer %s, own_memory %s" % (q, o))
        go("release", "nx_mem_block_release(%s)" % what, ini, {}, j_release, ("mem",), keep)

        def j_zero(c, st):
            inst = "nx_mem_block_set_zero(%s)" % what
            wellformed(rep, rule, inst, c, st, "mem", s, bor)
            rep.check(all(isval(ld(c, st, "heapD", j), c.K(0)) for j in range(s)), rule, inst + ": every byte is zero", c.fn.where(), "some of the %d bytes keep their value" % s)
        go("set_zero", "nx_mem_block_set_zero(%s)" % what, ini, {}, j_zero, ("mem",), keep)
        for nn in (0, 1, 2, 3, 4, 9):
            for f in ("reserve", "resize"):
                inst = "nx_mem_block_%s(%s; %d)" % (f, what, nn)

                def j_size(c, st):
                    untouched(inst, c, st)
                    q, cap, o = wellformed(rep, rule, inst, c, st, "mem", s if f == "reserve" else nn, bor)
                    rep.check(isinstance(st.ret, Ptr) and isinstance(q, Ptr) and st.ret.base == q.base and st.ret.off.same(q.off), rule, inst + ": returns the block", c.fn.where(), "returns %s, the block is at %s" % (st.ret, q))
                    n = min(s, nn) if f == "resize" else s
                    rep.check(same_bytes(c, st, q, "heapD", n), rule, inst + ": contents are kept", c.fn.where(), "the first %d bytes do not survive" % n)
                    rep.check(isinstance(cap, R) and cap.is_const() and cap.cval() >= max(nn, k), rule, inst + ": capacity never shrinks", c.fn.where(), "capacity %s" % cap)
                    if nn <= k and k:
                        rep.check(isinstance(q, Ptr) and q.base == "heapD", rule, inst + ": storage stays in place", c.fn.where(), "a request within the capacity moves the block")
                go(f, inst, ini, {1: nn}, j_size, ("mem",), keep)
        for o2 in (0, 1):
            inst = "nx_mem_block_wrap(%s; %s)" % (what, "owned" if o2 else "borrowed")

            def iw(p, st):
                ini(p, st)
                register(p, st, "ptr", 8)

            def j_wrap(c, st):
                untouched(inst, c, st)
                q, cap, o = wellformed(rep, rule, inst, c, st, "mem", 5, () if o2 else ("ptr",))
                rep.check(isinstance(q, Ptr) and q.base == "ptr" and isval(cap, c.K(8)) and isinstance(st.ret, Ptr) and st.ret.base == "ptr", rule, inst + ": refers to the given memory", c.fn.where(), "pointer %s, capacity %s" % (q, cap))
                rep.check(not own or "heapD" in free_of(c, st), rule, inst + ": old memory is released", c.fn.where(), "the memory it owned before is lost")
            go("wrap", inst, iw, {2: 5, 3: 8, 4: o2}, j_wrap, ("mem", "ptr"), keep)
        for s2, k2, own2 in states:
            inst = "nx_mem_block_copy(%d of %d %s <- %s)" % (s2, k2, "owned" if own2 else "borrowed", what)

            def ic(p, st):
                setmb(p, st, "src", "heapD", s, k, own)
                setmb(p, st, "dest", "heapE", s2, k2, own2)

            def j_copy(c, st):
                q, cap, o = wellformed(rep, rule, inst, c, st, "dest", s, () if own2 else ("heapE",))
                rep.check(isinstance(q, Ptr) and isinstance(st.ret, Ptr) and st.ret.base == q.base and st.ret.off.same(q.off), rule, inst + ": returns the copied memory", c.fn.where(), "returns %s" % (st.ret,))
                rep.check(same_bytes(c, st, q, "heapD", s), rule, inst + ": same contents", c.fn.where(), "the copy differs in the first %d bytes" % s)
                rep.check(not (isinstance(q, Ptr) and q.base == "heapD"), rule, inst + ": memory of its own", c.fn.where(), "the copy shares the memory of its source")
                q2, s3, c3, o3 = getmb(c, st, "src")
                rep.check(isval(s3, c.K(s)) and isval(c3, c.K(k)) and isval(o3, c.K(own)) and (k == 0 or (isinstance(q2, Ptr) and q2.base == "heapD" and same_bytes(c, st, q2, "heapD", s))), rule, inst + ": source is untouched", c.fn.where(), "the source is modified")
                rep.check("heapD" not in free_of(c, st) and (own2 or "heapE" not in free_of(c, st)), rule, inst + ": releases only its own memory", c.fn.where(), "released %s" % sorted(free_of(c, st)))
            go("copy", inst, ic, {}, j_copy, ("src", "dest"), ("heapD", "heapE") if not own2 else ("heapD",))
            inst2 = "nx_mem_block_swap(%d of %d %s, %s)" % (s2, k2, "owned" if own2 else "borrowed", what)

            def isw(p, st):
                setmb(p, st, "mem0", "heapD", s, k, own)
                setmb(p, st, "mem1", "heapE", s2, k2, own2)

            def j_swap(c, st):
                for b, d, (ss, kk, oo) in (("mem0", "heapE", (s2, k2, own2)), ("mem1", "heapD", (s, k, own))):
                    q, s3, c3, o3 = getmb(c, st, b)
                    rep.check(isval(s3, c.K(ss)) and isval(c3, c.K(kk)) and isval(o3, c.K(oo)) and isinstance(q, Ptr) and q.base == (d if kk else "null"), rule, inst2 + ": exchanged", c.fn.where(), "%s has pointer %s, size %s, capacity %s, ownership %s" % (b, q, s3, c3, o3))
            go("swap", inst2, isw, {}, j_swap, ("mem0", "mem1"), ())

        def j_copy0(c, st):
            inst = "nx_mem_block_copy0(%s)" % what
            rep.check(isinstance(st.ret, Ptr) and st.ret.base.startswith("heap") and st.ret.base != "heapD", rule, inst + ": new block", c.fn.where(), "returns %s" % (st.ret,))
            q, cap, o = wellformed(rep, rule, inst, c, st, st.ret.base, s)
            rep.check(same_bytes(c, st, q, "heapD", s) and q.base != "heapD", rule, inst + ": same contents in memory of its own", c.fn.where(), "the copy differs or shares memory")
        go("copy0", "nx_mem_block_copy0(%s)" % what, ini, {}, j_copy0, ("mem",), ("heapD",))


def vectors(rep):
    rule = "keypoint vector"
    V = "NXKeypointVector"
    fns = ["alloc", "new", "free", "reserve", "resize", "release", "wrap", "copy0", "copy", "push_back", "clear"]
    m = kernels([(f, "nx_keypoint_vector_" + f, None) for f in fns], name="p15v")
    S = 48

    def setv(p, st, base, data, n, cap, own):
        register(p, st, base, 32)
        setmb(p, st, base + "mem", data, S * n, S * cap, own)
        for f, v in (("size", p.K(n)), ("capacity", p.K(cap)), ("data", Ptr(data, p.K(0)) if cap else Ptr("null", p.K(0))), ("mem", Ptr(base + "mem", p.K(0)))):
            set_field(p, st, base, V, f, v)

    def items(c, st, got, base, n):
        if not isinstance(got, Ptr) or (n and got.base == "null"):
            return False
        for k in range(0, S * n, 8):
            if not isval(c.p._load(st, st.mem.get(got.base), got.base, got.off + k, 8, "i64"), orig(c, base, k, 8, "i64")):
                return False
        return True

    def wf(inst, c, st, b, n, borrowed=()):
        g = lambda f, ty: get_field(c.p, st, b, V, f, ty)
        mem = g("mem", "ptr")
        if not isinstance(mem, Ptr):
            raise Unsupported("vector without a memory block")
        sz, cap, d = g("size", "i64"), g("capacity", "i64"), g("data", "ptr")
        where = c.fn.where()
        rep.check(isval(sz, c.K(n)), rule, inst + ": size", where, "size becomes %s instead of %d" % (sz, n))
        ok = isinstance(cap, R) and cap.is_const() and isinstance(d, Ptr)
        rep.check(ok and cap.cval() >= n, rule, inst + ": capacity covers size", where, "capacity %s for %d items" % (cap, n))
        if ok and d.base != "null":
            bb = block(st, d.base)
            rep.check(bb is not None and bb[1] and bb[0].is_const() and bb[0].cval() >= cap.cval() * S, rule, inst + ": capacity is backed by memory", where, "%s items of %d bytes in a block of %s bytes" % (cap, S, bb and bb[0]))
        elif ok:
            rep.check(cap.cval() == 0, rule, inst + ": capacity is backed by memory", where, "capacity %s with no data" % cap)
        q, ms, mc, mo = getmb(c, st, mem.base)
        rep.check(isinstance(q, Ptr) and isinstance(d, Ptr) and q.base == d.base and isval(ms, c.K(n * S)) and isinstance(mc, R) and mc.is_const() and ok and mc.cval() // S == cap.cval(), rule, inst + ": agrees with its memory block", where, "data %s, block %s of %s bytes, capacity %s" % (d, q, ms, mc))
        if isinstance(q, Ptr) and q.base != "null":
            rep.check(isval(mo, c.K(0 if q.base in borrowed else 1)), rule, inst + ": ownership flag", where, "own_memory is %s" % mo)
        return d, cap

    def go(fn, inst, init, args, judge, roots=("v",), keep=()):
        ctx = Ctx()
        try:
            c = HCase(m, fn, init=init, ctx=ctx, argvals={k: R.const(ctx, v) for k, v in args.items()})
            for st in c.parts:
                sound(rep, rule, inst, c, st, roots, keep)
                judge(c, st)
        except Unsupported as e:
            rep.undecide(inst, e)
    go("alloc", "nx_keypoint_vector_alloc", None, {}, lambda c, st: wf("nx_keypoint_vector_alloc", c, st, st.ret.base, 0))

    def j_new(c, st, n):
        d, cap = wf("nx_keypoint_vector_new(%d)" % n, c, st, st.ret.base, 0)
        rep.check(isinstance(cap, R) and cap.is_const() and cap.cval() >= n, rule, "nx_keypoint_vector_new(%d): capacity" % n, c.fn.where(), "capacity %s" % cap)
    for n in (0, 1, 7):
        go("new", "nx_keypoint_vector_new(%d)" % n, None, {0: n}, lambda c, st: j_new(c, st, n))
    states = [(0, 0, 0), (0, 2, 1), (1, 1, 1), (2, 2, 1), (1, 3, 1), (2, 2, 0), (1, 3, 0)]
    for n, k, own in states:
        what = "vector with %d of %d items, %s" % (n, k, "owned" if own else "borrowed" if k else "empty")
        ini = lambda p, st: setv(p, st, "v", "heapD", n, k, own)
        keep = () if own else ("heapD",)
        bor = keep
        kept = lambda inst, c, st: rep.check(own or "heapD" not in free_of(c, st), rule, inst + ": borrowed items are left to their owner", c.fn.where(), "borrowed memory is released")

        def j_push(c, st):
            inst = "nx_keypoint_vector_push_back(%s)" % what
            kept(inst, c, st)
            d, cap = wf(inst, c, st, "v", n + 1, bor)
            rep.check(items(c, st, d, "heapD", n), rule, inst + ": items are kept", c.fn.where(), "the %d stored items do not survive" % n)
            rep.check(isinstance(st.ret, Ptr) and isinstance(d, Ptr) and st.ret.base == d.base and st.ret.off.same(d.off + S * n), rule, inst + ": returns the new item", c.fn.where(), "returns %s, items at %s" % (st.ret, d))
        go("push_back", "nx_keypoint_vector_push_back(%s)" % what, ini, {}, j_push, ("v",), keep)
        for nn in (0, 1, 2, 3, 6):
            for f in ("reserve", "resize"):
                inst = "nx_keypoint_vector_%s(%s; %d)" % (f, what, nn)

                def j_size(c, st):
                    kept(inst, c, st)
                    d, cap = wf(inst, c, st, "v", n if f == "reserve" else nn, bor)
                    rep.check(items(c, st, d, "heapD", n if f == "reserve" else min(n, nn)), rule, inst + ": items are kept", c.fn.where(), "stored items do not survive")
                    rep.check(isinstance(cap, R) and cap.is_const() and cap.cval() >= max(k, nn), rule, inst + ": capacity", c.fn.where(), "capacity %s" % cap)
                go(f, inst, ini, {1: nn}, j_size, ("v",), keep)

        def j_clear(c, st):
            inst = "nx_keypoint_vector_clear(%s)" % what
            kept(inst, c, st)
            wf(inst, c, st, "v", 0, bor)
        go("clear", "nx_keypoint_vector_clear(%s)" % what, ini, {}, j_clear, ("v",), keep)

        def j_rel(c, st):
            inst = "nx_keypoint_vector_release(%s)" % what
            kept(inst, c, st)
            wf(inst, c, st, "v", 0, ())
        go("release", "nx_keypoint_vector_release(%s)" % what, ini, {}, j_rel, ("v",), keep)

        def j_free(c, st):
            inst = "nx_keypoint_vector_free(%s)" % what
            kept(inst, c, st)
            rep.check({"v", "vmem"} <= free_of(c, st), rule, inst + ": released", c.fn.where(), "released only %s" % sorted(free_of(c, st)))
        go("free", "nx_keypoint_vector_free(%s)" % what, ini, {}, j_free, (), keep)

        def j_copy0(c, st):
            inst = "nx_keypoint_vector_copy0(%s)" % what
            d, cap = wf(inst, c, st, st.ret.base, n, ())
            rep.check(items(c, st, d, "heapD", n) and d.base != "heapD" and st.ret.base != "v", rule, inst + ": same items in memory of its own", c.fn.where(), "the copy differs or shares memory")
        go("copy0", "nx_keypoint_vector_copy0(%s)" % what, ini, {}, j_copy0, ("v",), ("heapD",))
        for n2, k2, own2 in ((0, 0, 0), (1, 1, 1), (1, 3, 0)):
            inst = "nx_keypoint_vector_copy(%d of %d <- %s)" % (n2, k2, what)

            def ic(p, st):
                setv(p, st, "src", "heapD", n, k, own)
                setv(p, st, "dest", "heapE", n2, k2, own2)

            def j_copy(c, st):
                d, cap = wf(inst, c, st, "dest", n, () if own2 else ("heapE",))
                rep.check(items(c, st, d, "heapD", n) and d.base != "heapD", rule, inst + ": same items in memory of its own", c.fn.where(), "the copy differs or shares memory")
                wf(inst + " source", c, st, "src", n, () if own else ("heapD",))
            go("copy", inst, ic, {}, j_copy, ("src", "dest"), ("heapD", "heapE") if not own2 else ("heapD",))

        for o2 in (0, 1):
            inst = "nx_keypoint_vector_wrap(%s; %s)" % (what, "owned" if o2 else "borrowed")

            def iw(p, st):
                ini(p, st)
                register(p, st, "items", 3 * S)

            def j_wrap(c, st):
                kept(inst, c, st)
                d, cap = wf(inst, c, st, "v", 2, () if o2 else ("items",))
                rep.check(isinstance(d, Ptr) and d.base == "items" and isval(cap, c.K(3)), rule, inst + ": refers to the given items", c.fn.where(), "data %s, capacity %s" % (d, cap))
            go("wrap", inst, iw, {2: 2, 3: 3, 4: o2}, j_wrap, ("v", "items"), keep)


# ---------------------------------------------------------------- string arrays
SA = "NXStringArray"


def setsa(p, st, base, strs, cap):
    register(p, st, base, 16)
    register(p, st, "heapel", 8 * cap)
    set_field(p, st, base, SA, "elems", Ptr("heapel", p.K(0)))
    set_field(p, st, base, SA, "size", p.K(len(strs)))
    set_field(p, st, base, SA, "capacity", p.K(cap))
    for k, s in enumerate(strs):
        q = Ptr("null", p.K(0)) if s is None else mkstr(p, st, "heaps%d" % k, s)
        st.mem["heapel"] = Entry("store", p.K(8 * k), 8, q, st.mem.get("heapel"))


def arrays(rep):
    rule = "string array"
    fns = ["alloc", "new", "new_from_null_terminated_list", "free", "size", "resize", "get", "set", "append", "find", "ptr", "vsetf", "vappendf"]
    m = kernels([(f, "nx_string_array_" + f, None) for f in fns], opaque=["nx_vfstr"], name="p15a")

    def content(inst, c, st, base, want):
        g = lambda f, ty: get_field(c.p, st, base, SA, f, ty)
        el, sz, cap = g("elems", "ptr"), g("size", "i32"), g("capacity", "i32")
        where = c.fn.where()
        rep.check(isval(sz, c.K(len(want))), rule, inst + ": size", where, "size becomes %s instead of %d" % (sz, len(want)))
        b = block(st, el.base) if isinstance(el, Ptr) else None
        ok = b is not None and b[1] and b[0].is_const() and isinstance(cap, R) and cap.is_const()
        rep.check(ok and cap.cval() >= len(want) and b[0].cval() >= 8 * cap.cval(), rule, inst + ": capacity is backed by memory", where, "capacity %s, block of %s bytes, %d strings" % (cap, b and b[0], len(want)))
        if not ok or b[0].cval() < 8 * len(want):
            return
        own = []
        for k, w in enumerate(want):
            q = c.p._load(st, st.mem.get(el.base), el.base, el.off + 8 * k, 8, "ptr")
            if w is None:
                rep.check(isinstance(q, Ptr) and q.base == "null", rule, inst + ": unset element", where, "element %d is %s" % (k, q))
            else:
                s = getstr(c, st, q)
                rep.check(samestr(c, s, w), rule, inst + ": element text", where, "element %d is %s instead of %s" % (k, s, w))
                if isinstance(q, Ptr):
                    own.append(q.base)
        rep.check(len(set(own)) == len(own) and "s" not in own, rule, inst + ": every element has memory of its own", where, "elements share memory: %s" % own)

    def go(fn, inst, init, args, judge, roots=("sa", "s"), keep=(), opaque=None):
        ctx = Ctx()
        try:
            c = HCase(m, fn, init=init, ctx=ctx, argvals={k: R.const(ctx, v) for k, v in args.items()}, opaque=opaque)
            for st in c.parts:
                sound(rep, rule, inst, c, st, roots, keep)
                judge(c, st)
        except Unsupported as e:
            rep.undecide(inst, e)
    go("alloc", "nx_string_array_alloc", None, {}, lambda c, st: content("nx_string_array_alloc", c, st, st.ret.base, []))
    for n in (0, 1, 2, 3, 20):
        go("new", "nx_string_array_new(%d)" % n, None, {0: n}, lambda c, st: content("nx_string_array_new(%d)" % n, c, st, st.ret.base, [None] * n))
    for n in range(4):
        inst = "nx_string_array_new_from_null_terminated_list(%d strings)" % n

        def il(p, st):
            register(p, st, "str_list", 8 * (n + 1))
            for k in range(n + 1):
                q = mkstr(p, st, "heapl%d" % k, ["l%d%d" % (k, j) for j in range(k)]) if k < n else Ptr("null", p.K(0))
                st.mem["str_list"] = Entry("store", p.K(8 * k), 8, q, st.mem.get("str_list"))
        go("new_from_null_terminated_list", inst, il, {}, lambda c, st: content(inst, c, st, st.ret.base, [["l%d%d" % (k, j) for j in range(k)] for k in range(n)]), ("str_list",))
    A, B, E = ["a0", "a1"], ["b0"], []
    states = [([], 2), ([A], 2), ([A, B], 2), ([A, None], 2), ([None, E, B], 15), ([A, B, E], 3)]
    for strs, cap in states:
        what = "%d of %d%s" % (len(strs), cap, ", some unset" if None in strs else "")
        ini = lambda p, st: setsa(p, st, "sa", strs, cap)

        def ins(p, st):
            ini(p, st)
            mkstr(p, st, "s", ["x", "y", "z"])
        X = ["x", "y", "z"]
        go("free", "nx_string_array_free(%s)" % what, ini, {}, lambda c, st: rep.check({"sa", "heapel"} <= free_of(c, st), rule, "nx_string_array_free(%s): released" % what, c.fn.where(), "released only %s" % sorted(free_of(c, st))), ())
        go("size", "nx_string_array_size(%s)" % what, ini, {}, lambda c, st: rep.check(isval(st.ret, c.K(len(strs))), rule, "nx_string_array_size(%s)" % what, c.fn.where(), "returns %s" % st.ret))
        for nn in (0, 1, 2, 3, 4, 30):
            inst = "nx_string_array_resize(%s; %d)" % (what, nn)
            go("resize", inst, ini, {1: nn}, lambda c, st: content(inst, c, st, "sa", (strs + [None] * nn)[:nn]))
        inst = "nx_string_array_append(%s)" % what

        def j_app(c, st):
            rep.check(isval(st.ret, c.K(len(strs))), rule, inst + ": returns the index", c.fn.where(), "returns %s" % st.ret)
            content(inst, c, st, "sa", strs + [X])
        go("append", inst, ins, {}, j_app)
        for k in range(len(strs)):
            i2 = "nx_string_array_set(%s; %d)" % (what, k)
            go("set", i2, ins, {1: k}, lambda c, st: content(i2, c, st, "sa", strs[:k] + [X] + strs[k + 1:]))
            i3 = "nx_string_array_get(%s; %d)" % (what, k)
            go("get", i3, ini, {1: k}, lambda c, st: rep.check(isinstance(st.ret, Ptr) and (strs[k] is None) == (st.ret.base == "null") and (strs[k] is None or st.ret.base == "heaps%d" % k), rule, i3, c.fn.where(), "returns %s" % (st.ret,)))
            i4 = "nx_string_array_vsetf(%s; %d)" % (what, k)

            def vf(p, i, st, a):
                q = mkstr(p, st, "heapfmt%d" % i.id, ["f0", "f1"], owned=False)
                return q
            go("vsetf", i4, ini, {1: k}, lambda c, st: content(i4, c, st, "sa", strs[:k] + [["f0", "f1"]] + strs[k + 1:]), opaque={"nx_vfstr": vf})
        # setting an element to (part of) its own text keeps it
        for k in range(len(strs)):
            if strs[k] and len(strs[k]) == 2:
                for o in (0, 1):
                    i5 = "nx_string_array_set(%s; %d, own text from %d)" % (what, k, o)
                    ctx = Ctx()
                    try:
                        c = HCase(m, "set", init=ini, ctx=ctx, argvals={1: R.const(ctx, k), 2: Ptr("heaps%d" % k, R.const(ctx, o))})
                        for st in c.parts:
                            sound(rep, rule, i5, c, st, ("sa",))
                            content(i5, c, st, "sa", strs[:k] + [strs[k][o:]] + strs[k + 1:])
                    except Unsupported as e:
                        rep.undecide(i5, e)
        i6 = "nx_string_array_find(%s)" % what

        def j_find(c, st):
            w = [c.V(x) for x in X]
            poss = []
            for k, s in enumerate(strs):
                if s is None:
                    continue
                e = [c.V(x) for x in s]
                if len(e) != len(w):
                    continue
                ms = [c.p.sign_under(st.cons, a - b) for a, b in zip(e, w)]
                poss.append((k, all(q == ZERO for q in ms), all(q & ZERO for q in ms)))
            sure = next((k for k, a, b in poss if a), None)
            r = int(st.ret.cval()) if isinstance(st.ret, R) and st.ret.is_const() else None
            ok = r == -1 and not any(b for k, a, b in poss) or r is not None and r >= 0 and any(k == r and a for k, a, b in poss) and not any(b for k, a, b in poss if k < r)
            rep.check(ok, rule, i6 + ": first equal element", c.fn.where(), "returns %s (when %s)" % (st.ret, guard_text(st)[:200]))
        X, save = ["x", "y"], X

        def ins2(p, st):
            ini(p, st)
            mkstr(p, st, "s", X)
        go("find", i6, ins2, {}, j_find)
        X = save


# ---------------------------------------------------------------- graphs
def graphs(rep):
    rule = "graph"
    fns = ["new_adj_mat", "free_adj_mat", "insert_adj_mat", "edge_new", "edge_list_free", "edge_list_seach", "new_adj_lst", "free_adj_lst", "insert_adj_lst"]
    m = kernels([(f, "nx_graph_" + f, None) for f in fns], name="p15g")
    AM, AL, GE = "NXGraphAdjMat", "NXGraphAdjLst", "NXGraphEdge"
    BIG = tofrac(1.7976931348623157e308)

    def go(fn, inst, init, args, judge, roots=("g",), keep=()):
        ctx = Ctx()
        try:
            c = HCase(m, fn, init=init, ctx=ctx, argvals={k: R.const(ctx, v) for k, v in args.items()})
            for st in c.parts:
                sound(rep, rule, inst, c, st, roots, keep)
                judge(c, st)
        except Unsupported as e:
            rep.undecide(inst, e)
    for n in (0, 1, 2, 3):
        inst = "nx_graph_new_adj_mat(%d)" % n

        def j(c, st):
            b = st.ret.base
            g = lambda f, ty="i32": get_field(c.p, st, b, AM, f, ty)
            rep.check(isval(g("n_v"), c.K(n)) and isval(g("n_e"), c.K(0)), rule, inst + ": counts", c.fn.where(), "%s vertices, %s edges" % (g("n_v"), g("n_e")))
            w = g("weights", "ptr")
            rep.check(n == 0 or all(isval(ld(c, st, w.base, 8 * k, 8, "double"), c.K(BIG)) for k in range(n * n)), rule, inst + ": no edges", c.fn.where(), "an entry of the weight matrix is not the absent-edge weight")
            rep.check(samestr(c, getstr(c, st, g("name", "ptr")), ["n0", "n1"]) and g("name", "ptr").base != "name", rule, inst + ": name", c.fn.where(), "name is %s" % getstr(c, st, g("name", "ptr")))
        go("new_adj_mat", inst, lambda p, st: mkstr(p, st, "name", ["n0", "n1"]), {1: n}, j, ("name",))
        inst2 = "nx_graph_new_adj_lst(%d)" % n

        def j2(c, st):
            b = st.ret.base
            g = lambda f, ty="i32": get_field(c.p, st, b, AL, f, ty)
            rep.check(isval(g("n_v"), c.K(n)) and isval(g("n_e"), c.K(0)), rule, inst2 + ": counts", c.fn.where(), "%s vertices, %s edges" % (g("n_v"), g("n_e")))
            w = g("edges", "ptr")
            rep.check(n == 0 or all(ld(c, st, w.base, 8 * k, 8, "ptr").base == "null" for k in range(n)), rule, inst2 + ": no edges", c.fn.where(), "a vertex starts with edges")
            rep.check(samestr(c, getstr(c, st, g("name", "ptr")), ["n0", "n1"]) and g("name", "ptr").base != "name", rule, inst2 + ": name", c.fn.where(), "name is %s" % getstr(c, st, g("name", "ptr")))
        go("new_adj_lst", inst2, lambda p, st: mkstr(p, st, "name", ["n0", "n1"]), {1: n}, j2, ("name",))

    def mat(p, st, n, edges):
        register(p, st, "g", 24)
        mkstr(p, st, "heapn", ["n0"])
        register(p, st, "heapw", 8 * n * n)
        for f, v in (("name", Ptr("heapn", p.K(0))), ("n_v", p.K(n)), ("n_e", p.K(len(edges))), ("weights", Ptr("heapw", p.K(0)))):
            set_field(p, st, "g", AM, f, v)
        for a in range(n):
            for b in range(n):
                k = (min(a, b), max(a, b))
                v = p.V("w%d%d" % k) if k in edges else p.K(BIG)
                if k in edges:
                    st.cons = p.assume(st.cons, v - p.K(BIG), NEG)
                st.mem["heapw"] = Entry("store", p.K(8 * (n * a + b)), 8, v, st.mem.get("heapw"))

    def lst(p, st, n, edges):
        register(p, st, "g", 24)
        mkstr(p, st, "heapn", ["n0"])
        register(p, st, "heape", 8 * n)
        for f, v in (("name", Ptr("heapn", p.K(0))), ("n_v", p.K(n)), ("n_e", p.K(len(edges))), ("edges", Ptr("heape", p.K(0)))):
            set_field(p, st, "g", AL, f, v)
        for a in range(n):
            head = Ptr("null", p.K(0))
            for b in range(n):
                k = (min(a, b), max(a, b))
                if k in edges:
                    q = "heape%d%d" % (a, b)
                    register(p, st, q, 24)
                    for f, v in (("v", p.K(b)), ("weight", p.V("w%d%d" % k)), ("next", head)):
                        set_field(p, st, q, GE, f, v)
                    head = Ptr(q, p.K(0))
            st.mem["heape"] = Entry("store", p.K(8 * a), 8, head, st.mem.get("heape"))

    E3 = [(), ((0, 1),), ((0, 2), (1, 2)), ((0, 1), (0, 2), (1, 2))]
    for edges in E3:
        for v in range(3):
            for w in range(3):
                k = (min(v, w), max(v, w))
                want = {e: "w%d%d" % e for e in edges}
                if v != w:
                    want[k] = "weight"
                inst = "nx_graph_insert_adj_mat(%s; %d-%d)" % (list(edges), v, w)

                def j(c, st):
                    ne = get_field(c.p, st, "g", AM, "n_e")
                    rep.check(isval(ne, c.K(len(want))), rule, inst + ": edge count", c.fn.where(), "counts %s edges, the graph has %d" % (ne, len(want)))
                    for a in range(3):
                        for b in range(3):
                            q = want.get((min(a, b), max(a, b)))
                            x = ld(c, st, "heapw", 8 * (3 * a + b), 8, "double")
                            rep.check(isval(x, c.V(q) if q else c.K(BIG)), rule, inst + ": weights", c.fn.where(), "entry (%d, %d) is %s" % (a, b, x))
                go("insert_adj_mat", inst, lambda p, st: mat(p, st, 3, edges), {1: v, 2: w}, j)
                inst2 = "nx_graph_insert_adj_lst(%s; %d-%d)" % (list(edges), v, w)

                def j2(c, st):
                    ne = get_field(c.p, st, "g", AL, "n_e")
                    rep.check(isval(ne, c.K(len(want))), rule, inst2 + ": edge count", c.fn.where(), "counts %s edges, the graph has %d" % (ne, len(want)))
                    for a in range(3):
                        got = {}
                        q = ld(c, st, "heape", 8 * a, 8, "ptr")
                        for _ in range(8):
                            if not isinstance(q, Ptr) or q.base == "null":
                                break
                            b = get_field(c.p, st, q.base, GE, "v")
                            b = int(b.cval()) if b.is_const() else b.show()
                            rep.check(b not in got, rule, inst2 + ": simple lists", c.fn.where(), "vertex %d lists %s twice" % (a, b))
                            got[b] = get_field(c.p, st, q.base, GE, "weight", "double")
                            q = get_field(c.p, st, q.base, GE, "next", "ptr")
                        exp = {(e[1] if e[0] == a else e[0]): s for e, s in want.items() if a in e}
                        rep.check(set(got) == set(exp) and all(isval(got[b], c.V(exp[b])) for b in got), rule, inst2 + ": edges", c.fn.where(), "vertex %d has edges %s instead of %s" % (a, {b: str(x) for b, x in got.items()}, exp))
                go("insert_adj_lst", inst2, lambda p, st: lst(p, st, 3, edges), {1: v, 2: w}, j2)
        i3 = "nx_graph_free_adj_mat(%s)" % list(edges)
        go("free_adj_mat", i3, lambda p, st: mat(p, st, 3, edges), {}, lambda c, st: rep.check({"g", "heapw", "heapn"} <= free_of(c, st), rule, i3 + ": released", c.fn.where(), "released %s" % sorted(free_of(c, st))), ())
        i4 = "nx_graph_free_adj_lst(%s)" % list(edges)
        go("free_adj_lst", i4, lambda p, st: lst(p, st, 3, edges), {}, lambda c, st: rep.check({"g", "heape", "heapn"} <= free_of(c, st), rule, i4 + ": released", c.fn.where(), "released %s" % sorted(free_of(c, st))), ())


# ---------------------------------------------------------------- strings
def strings(rep):
    rule = "string"
    m = kernels([(f, f, None) for f in ("nx_strdup", "nx_strredup", "nx_vfstr", "nx_hash_to_str")], name="p15s")

    def go(fn, inst, init, args, judge, roots=(), keep=(), opaque=None):
        ctx = Ctx()
        try:
            c = HCase(m, fn, init=init, ctx=ctx, argvals={k: (R.const(ctx, v) if not isinstance(v, tuple) else Ptr(v[0], R.const(ctx, v[1]))) for k, v in args.items()}, opaque=opaque)
            for st in c.parts:
                sound(rep, rule, inst, c, st, roots, keep)
                judge(c, st)
            return c
        except Unsupported as e:
            rep.undecide(inst, e)
    for n in (0, 1, 2, 7):
        T = ["t%d" % k for k in range(n)]
        inst = "nx_strdup(%d characters)" % n
        go("nx_strdup", inst, lambda p, st: mkstr(p, st, "s", T), {}, lambda c, st: rep.check(samestr(c, getstr(c, st, st.ret), T) and st.ret.base != "s", rule, inst, c.fn.where(), "returns %s" % getstr(c, st, st.ret)), ("s",))
        for old in (None, [], ["o0", "o1"], ["o%d" % k for k in range(9)]):
            for src in ("null", "text", "self", "inside"):
                i2 = "nx_strredup(%s <- %s of %d)" % ("unset" if old is None else "%d characters" % len(old), src, n)
                if src in ("self", "inside") and (n or not old):
                    continue

                def init(p, st):
                    register(p, st, "dest", 8)
                    q = Ptr("null", p.K(0)) if old is None else mkstr(p, st, "heapo", old)
                    st.mem["dest"] = Entry("store", p.K(0), 8, q, st.mem.get("dest"))
                    mkstr(p, st, "src", T)
                want = None if src == "null" else T if src == "text" else old[1 if src == "inside" else 0:]

                def j(c, st):
                    q = ld(c, st, "dest", 0, 8, "ptr")
                    if want is None:
                        rep.check(isinstance(q, Ptr) and q.base == "null", rule, i2 + ": cleared", c.fn.where(), "destination is %s" % (q,))
                    else:
                        rep.check(samestr(c, getstr(c, st, q), want) and q.base != "src", rule, i2 + ": copy of the source", c.fn.where(), "destination is %s instead of %s" % (getstr(c, st, q), want))
                go("nx_strredup", i2, init, {1: {"null": ("null", 0), "text": ("src", 0), "self": ("heapo", 0), "inside": ("heapo", 1)}[src]}, j, ("dest", "src"))
    # formatted strings of every length around the initial buffer
    for L in (0, 1, 63, 64, 65, 66, 129, 200):
        inst = "nx_vfstr(result of %d characters)" % L

        def vsn(p, i, st, a):
            d, sz = a[0], a[1]
            if not (isinstance(sz, R) and sz.is_const()):
                raise Unsupported("buffer size %s" % sz)
            k = min(L, int(sz.cval()) - 1)
            if sz.cval() > 0:
                put(p, st, d, [p.K(65 + j % 26) for j in range(k)] + [0])
                st.events.append(("fmt", a[2]))
            return p.K(L)
        go("nx_vfstr", inst, None, {}, lambda c, st: (rep.check(samestr(c, getstr(c, st, st.ret), [65 + j % 26 for j in range(L)]), rule, inst, c.fn.where(), "the result has %s characters" % (len(getstr(c, st, st.ret)) if getstr(c, st, st.ret) is not None else "no valid")),
                                                      rep.check(all(e[1].base == "format" for e in st.events if e[0] == "fmt"), rule, inst + ": format", c.fn.where(), "formats something else")), (), opaque={"vsnprintf": vsn, "__vsnprintf_chk": lambda p, i, st, a: vsn(p, i, st, [a[0], a[1], a[4], a[5]])})
    # hexadecimal rendering of a digest
    # every byte value, in digests of several lengths
    for bs in ([], [0], [255], [0x9a, 0, 0x0f], [(37 * k + 11) % 256 for k in range(32)]) + tuple([list(range(k, k + 32)) for k in range(0, 256, 32)]):
        n = len(bs)
        inst = "nx_hash_to_str(%s)" % ("".join("%02x" % b for b in bs[:4]) + ("... %d bytes" % n if n > 4 else ""))

        def init(p, st):
            register(p, st, "hash", n)
            for k, b in enumerate(bs):
                st.mem["hash"] = Entry("store", p.K(k), 1, p.K(b), st.mem.get("hash"))

        def j(c, st):
            got = getstr(c, st, st.ret)
            want = [ord(ch) for b in bs for ch in "%02x" % b]
            rep.check(got is not None and len(got) == len(want) and all(x.is_const() and int(x.cval()) % 256 == w for x, w in zip(got, want)), rule, inst, c.fn.where(),
                      "returns %s" % ([str(x) for x in got][:8] if got is not None else None))
        go("nx_hash_to_str", inst, init, {0: n}, j, ("hash",))


def formatted(rep):
    """texts made from a format: every argument in its place, whatever the length, also from the text that is replaced"""
    rule = "formatted string"
    m = kernels([(f, f, None) for f in ("nx_fstr", "nx_string_array_alloc", "nx_string_array_append", "nx_string_array_appendf", "nx_string_array_setf", "nx_string_array_get", "nx_string_array_size", "nx_string_array_free")], name="p15f")
    T = {0: [], 1: ["t0"], 5: ["t%d" % k for k in range(5)], 70: ["t%d" % k for k in range(70)], 150: ["t%d" % k for k in range(150)]}

    go = []
    for n, txt in T.items():
        for fmt, va, want in (("%s", [0], [0]), ("<%s>%%", [0], ["<", 0, ">%"]), ("%s/%s", [1, 0], [1, "/", 0]), ("%d:%s", [7, 0], ["7:", 0]), ("plain", [], ["plain"])):
            if n < 10 or fmt == "%s" or fmt == "%s/%s" and n == 70:
                go.append((n, txt, fmt, va, want))
    for n, txt, fmt, va, want in go:
        src = {0: txt, 1: ["u0", "u1"]}
        exp = []
        for w in want:
            exp += list(w.encode()) if isinstance(w, str) else src[w]
        for how in ("nx_fstr", "append", "set"):
            inst = "%s(%r, text of %d characters)" % ({"nx_fstr": "nx_fstr", "append": "nx_string_array_appendf", "set": "nx_string_array_setf"}[how], fmt, n)
            try:
                s = Session(rep, rule, m, inst, opaque={"nx_fstr": FOLLOW})
                args = lambda: [(s.text(src[x]) if x in (0, 1) else x, 8 if x in (0, 1) else 4) for x in va]
                if how == "nx_fstr":
                    q = s.call("nx_fstr", s.text(fmt, "heapfmt"), va=args())
                    s.ok(samestr(s.c, s.str(q), exp), "text", "is %s" % (s.str(q),))
                    s.end([q.base])
                    continue
                a = s.call("nx_string_array_alloc")
                for w in (["p0"], ["q0", "q1"]):
                    s.call("nx_string_array_append", a, s.text(w))
                if how == "append":
                    r = s.call("nx_string_array_appendf", a, s.text(fmt, "heapfmt"), va=args())
                    s.ok(isval(r, s.K(2)), "index", "returns %s" % r)
                    all_ = [["p0"], ["q0", "q1"], exp]
                else:
                    s.call("nx_string_array_setf", a, 1, s.text(fmt, "heapfmt"), va=args())
                    all_ = [["p0"], exp]
                r = s.call("nx_string_array_size", a)
                s.ok(isval(r, s.K(len(all_))), "size", "is %s" % r)
                for k, w in enumerate(all_):
                    q = s.call("nx_string_array_get", a, k)
                    s.ok(isinstance(q, Ptr) and samestr(s.c, s.str(q), w), "element %d" % k, "is %s" % (s.str(q) if isinstance(q, Ptr) else q,))
                if how == "set" and va == [0] and n:
                    # the new text is made from the element's own
                    q = s.call("nx_string_array_get", a, 1)
                    s.call("nx_string_array_setf", a, 1, s.text("+%s", "heapfmt2"), va=[(q, 8)])
                    q = s.call("nx_string_array_get", a, 1)
                    s.ok(isinstance(q, Ptr) and samestr(s.c, s.str(q), [43] + exp), "made from its own text", "is %s" % (s.str(q) if isinstance(q, Ptr) else q,))
                s.call("nx_string_array_free", a)
                s.end()
            except Fatal as e:
                rep.check(False, rule, inst, str(e), "%s ends the program" % e)
            except Unsupported as e:
                rep.undecide(inst, e)


def pieces(rep):
    """nx_memncpy_multi: the next n bytes of the concatenated sources, and the position after them"""
    rule = "gathering copy"
    fn = "nx_memncpy_multi"
    m = kernels([(fn, fn, None)], name="p15p")
    import itertools
    for lens in [(0,), (1,), (3,), (0, 2), (2, 0), (1, 2), (2, 3), (0, 0), (1, 0, 2), (2, 1, 1), (0, 0, 1)]:
        ns = len(lens)
        whole = [(k, j) for k in range(ns) for j in range(lens[k])]
        start = [(k, j) for k in range(ns) for j in range(lens[k] + 1)] + [(ns, 0)]
        for (so, of), n in itertools.product(start, (0, 1, 2, 3, 7)):
            inst = "%s(lengths %s, from %d:%d, %d bytes)" % (fn, list(lens), so, of, n)
            rest = [w for w in whole if w >= (so, of)]
            take = rest[:n]

            def init(p, st):
                register(p, st, "dest", n)
                register(p, st, "src", 8 * ns)
                register(p, st, "l_src", 8 * ns)
                register(p, st, "src_offset", 4)
                register(p, st, "offset", 8)
                for k in range(ns):
                    register(p, st, "heaps%d" % k, lens[k])
                    st.mem["src"] = Entry("store", p.K(8 * k), 8, Ptr("heaps%d" % k, p.K(0)), st.mem.get("src"))
                    st.mem["l_src"] = Entry("store", p.K(8 * k), 8, p.K(lens[k]), st.mem.get("l_src"))
                st.mem["src_offset"] = Entry("store", p.K(0), 4, p.K(so), None)
                st.mem["offset"] = Entry("store", p.K(0), 8, p.K(of), None)
            ctx = Ctx()
            try:
                c = HCase(m, fn, init=init, ctx=ctx, argvals={1: R.const(ctx, ns), 4: R.const(ctx, n)})
                for st in c.parts:
                    sound(rep, rule, inst, c, st, ("dest", "src", "l_src", "src_offset", "offset"))
                    rep.check(isval(st.ret, c.K(len(take))), rule, inst + ": count", c.fn.where(), "returns %s instead of %d" % (st.ret, len(take)))
                    got = [ld(c, st, "dest", j) for j in range(len(take))]
                    rep.check(all(isval(g, orig(c, "heaps%d" % k, j)) for g, (k, j) in zip(got, take)), rule, inst + ": bytes", c.fn.where(), "copies %s instead of %s" % ([str(g) for g in got], take))
                    a, b = ld(c, st, "src_offset", 0, 4, "i32"), ld(c, st, "offset", 0, 8, "i64")
                    if a.is_const() and b.is_const():
                        pos = (int(a.cval()), int(b.cval()))
                        left = [w for w in whole if w >= pos]
                        ok = left == rest[n:] and 0 <= pos[0] <= ns and pos[1] >= 0 and (pos[0] < ns or pos[1] == 0)
                        rep.check(ok, rule, inst + ": position", c.fn.where(), "continues at %d:%d" % pos)
                    else:
                        rep.check(False, rule, inst + ": position", c.fn.where(), "continues at %s:%s" % (a, b))
            except Unsupported as e:
                rep.undecide(inst, e)
