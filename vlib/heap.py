"""Heap model for value numbering: allocation, release and string/memory library functions over blocks of known size.
Every access of a known block is checked for its bounds and for use after release; at the end of a path every block that
was allocated there must be released or reachable from the result."""
from .pix import *
from .poly import Ctx

JUNK = "~junk"


class Fault(Exception):
    pass


def where(p):
    try:
        return p.cur.where()
    except Exception:
        return p.fn.where()


def fault(p, st, text):
    st.events.append(("fault", text, where(p)))


def block(st, base):
    """(size, alive) of a registered block, or None"""
    size, alive = None, True
    for e in st.events:
        if e[0] == "blk" and e[1] == base:
            size, alive = e[2], True
        elif e[0] == "released" and e[1] == base:
            alive = False
    return None if size is None else (size, alive)


def register(p, st, base, size, owned=True):
    """announce a block that exists before the analysed function starts"""
    p.exists.add(base)
    st.events.append(("blk", base, size if isinstance(size, R) else p.K(size), owned))


def guard(p, st, ptr, size, kind):
    if not isinstance(ptr, Ptr):
        return
    if ptr.base == "null":
        fault(p, st, "%s through a null pointer" % kind)
        return
    b = block(st, ptr.base)
    if b is None:
        return
    sz, alive = b
    if not alive:
        fault(p, st, "%s of released memory (%s)" % (kind, ptr.base))
        return
    sz_ = size if isinstance(size, R) else p.K(size)
    end = ptr.off + sz_
    if p.sign_under(st.cons, ptr.off) & NEG and ptr.off.is_const():
        fault(p, st, "%s before the start of %s" % (kind, ptr.base))
    over = p.sign_under(st.cons, end - sz)
    if over == POS or (over & POS and (end - sz).is_const()):
        fault(p, st, "%s of %s up to byte %s of %s" % (kind, ptr.base, end.show(), sz.show()))


def _new(p, i, st, size, zero=False):
    n = sum(1 for e in st.events if e[0] == "blk")
    base = "heap%d_%d" % (i.id, n)
    st.events.append(("blk", base, size, False))
    st.mem[base] = Entry("zero", p.K(0), int(size.cval()) if size.is_const() else 10 ** 9, None, None) if zero else Entry("havoc", None, None, "junk", None)
    return Ptr(base, p.K(0))


def malloc(p, i, st, a):
    return _new(p, i, st, a[-1] if len(a) == 1 else a[1])


def calloc(p, i, st, a):
    return _new(p, i, st, a[0] * a[1], True)


def release(p, st, ptr, how):
    if ptr.base == "null":
        return
    b = block(st, ptr.base)
    if b is None:
        st.events.append(("released", ptr.base))
        st.events.append(("freed-unknown", ptr.base, where(p)))
        return
    if not b[1]:
        fault(p, st, "%s of already released memory (%s)" % (how, ptr.base))
    if not ptr.off.same(0):
        fault(p, st, "%s of a pointer into the middle of %s" % (how, ptr.base))
    st.events.append(("released", ptr.base))


def free(p, i, st, a):
    if not isinstance(a[0], Ptr):
        raise Unsupported("release of a non-pointer")
    release(p, st, a[0], "release")


def realloc(p, i, st, a):
    old, size = a
    q = _new(p, i, st, size)
    if isinstance(old, Ptr) and old.base != "null":
        b = block(st, old.base)
        osz = b[0] if b else size
        release(p, st, old, "resize")
        if osz.is_const() and size.is_const():
            n = min(osz.cval(), size.cval())
            if n:
                st.mem[q.base] = Entry("copy", p.K(0), n, (old.base, p.K(0), st.mem.get(old.base)), st.mem.get(q.base))
        else:
            st.mem[q.base] = Entry("vcopy", p.K(0), osz, (old.base, p.K(0), st.mem.get(old.base)), st.mem.get(q.base))
    return q


def byte(p, st, ptr, k):
    q = Ptr(ptr.base, ptr.off + k)
    guard(p, st, q, 1, "read")
    return p._load(st, st.mem.get(ptr.base), ptr.base, q.off, 1, "i8")


def cstr(p, st, ptr, limit=200):
    """bytes of a terminated string whose bytes are known to be zero or non-zero"""
    if not isinstance(ptr, Ptr) or ptr.base == "null":
        fault(p, st, "string function on a null pointer")
        if isinstance(ptr, Ptr) and ptr.off.is_const():
            raise Crash("string function on a null pointer", where(p))
        raise Unsupported("string at %r" % (ptr,))
    out = []
    for k in range(limit):
        b = byte(p, st, ptr, k)
        if not isinstance(b, R):
            raise Unsupported("string byte %r" % (b,))
        s = p.sign_under(st.cons, b)
        if JUNK in b.show():
            fault(p, st, "string function reads uninitialised memory")
            raise Unsupported("unterminated string")
        if s == ZERO:
            return out
        if s & ZERO:
            raise Unsupported("string length depends on %s" % b.show())
        out.append(b)
    raise Unsupported("long string")


def strlen(p, i, st, a):
    return p.K(len(cstr(p, st, a[0])))


def put(p, st, ptr, bs):
    for k, b in enumerate(bs):
        q = Ptr(ptr.base, ptr.off + k)
        guard(p, st, q, 1, "write")
        st.mem[ptr.base] = Entry("store", q.off, 1, b if isinstance(b, R) else p.K(b), st.mem.get(ptr.base))


def strcpy(p, i, st, a):
    put(p, st, a[0], cstr(p, st, a[1]) + [0])
    return a[0]


def strncpy(p, i, st, a):
    s = cstr(p, st, a[1])
    n = int(a[2].cval())
    put(p, st, a[0], (s + [0] * n)[:n])
    return a[0]


def strcat(p, i, st, a):
    n = len(cstr(p, st, a[0]))
    put(p, st, Ptr(a[0].base, a[0].off + n), cstr(p, st, a[1]) + [0])
    return a[0]


def _cmp(p, st, x, y):
    """forks on the first difference"""
    outs = []
    cons = st.cons
    for k in range(max(len(x), len(y)) + 1):
        a = x[k] if k < len(x) else p.K(0)
        b = y[k] if k < len(y) else p.K(0)
        for m, v in ((NEG, -1), (POS, 1)):
            c = p.assume(cons, a - b, m)
            if c is not None:
                outs.append((c, p.K(v)))
        cons = p.assume(cons, a - b, ZERO)
        if cons is None:
            return outs
    outs.append((cons, p.K(0)))
    return outs


def strcmp(p, i, st, a):
    r = _cmp(p, st, cstr(p, st, a[0]), cstr(p, st, a[1]))
    return r[0][1] if len(r) == 1 and r[0][0] is st.cons else r


def strncmp(p, i, st, a):
    n = int(a[2].cval())
    r = _cmp(p, st, cstr(p, st, a[0])[:n], cstr(p, st, a[1])[:n])
    return r


def strchr(p, i, st, a):
    s = cstr(p, st, a[0])
    outs, cons = [], st.cons
    for k, b in enumerate(s + [p.K(0)]):
        c = p.assume(cons, b - a[1], ZERO)
        if c is not None:
            outs.append((c, Ptr(a[0].base, a[0].off + k)))
        cons = p.assume(cons, b - a[1], NEG | POS)
        if cons is None:
            return outs
    outs.append((cons, Ptr("null", p.K(0))))
    return outs


def strrchr(p, i, st, a):
    s = cstr(p, st, a[0])
    outs, cons = [], st.cons
    for k, b in reversed(list(enumerate(s + [p.K(0)]))):
        c = p.assume(cons, b - a[1], ZERO)
        if c is not None:
            outs.append((c, Ptr(a[0].base, a[0].off + k)))
        cons = p.assume(cons, b - a[1], NEG | POS)
        if cons is None:
            return outs
    outs.append((cons, Ptr("null", p.K(0))))
    return outs


# ---------------------------------------------------------------- streams: a tape of bytes per stream
def tape(st, stream):
    """(write position, read position, length) of a stream"""
    w = r = 0
    for e in st.events:
        if e[0] == "wr" and e[1] == stream:
            w += e[2]
        elif e[0] == "rd" and e[1] == stream:
            r += e[2]
        elif e[0] == "load" and e[1] == stream:
            w = e[2]
    return w, r


def tbase(stream):
    return "tape:" + stream


def nth(st):
    return sum(1 for e in st.events if e[0] == "io")


def failing(p, st):
    """is this the stream operation that fails in this instance?"""
    k = nth(st)
    st.events.append(("io", k, where(p)))
    return getattr(p.ctx, "fail_at", None) == k


def sname(f):
    if not isinstance(f, Ptr):
        raise Unsupported("stream %r" % (f,))
    return f.base


def emit(p, st, f, bs):
    s = sname(f)
    live(p, st, s)
    w, _ = tape(st, s)
    for k, b in enumerate(bs):
        st.mem[tbase(s)] = Entry("store", p.K(w + k), 1, b if isinstance(b, R) else p.K(b), st.mem.get(tbase(s)))
    st.events.append(("wr", s, len(bs)))


def fputc(p, i, st, a):
    if failing(p, st):
        return p.K(-1)
    emit(p, st, a[1], [p.K(int(a[0].cval()) % 256) if a[0].is_const() else a[0]])
    if a[0].is_const():
        return p.K(int(a[0].cval()) % 256)
    v = p.V("uchar(%s)" % a[0].show())
    st.cons = p.assume(st.cons, v, ZERO | POS)
    return v


def fputs(p, i, st, a):
    if failing(p, st):
        return p.K(-1)
    emit(p, st, a[1], cstr(p, st, a[0]))
    return p.K(1)


def fwrite(p, i, st, a):
    n = a[1] * a[2]
    if not n.is_const():
        raise Unsupported("writes %s bytes" % n)
    n = int(n.cval())
    if n == 0:
        return a[2]
    guard(p, st, a[0], n, "write out")
    if failing(p, st):
        return a[2] - 1 if a[2].is_const() and a[2].cval() > 0 else a[2]
    s = sname(a[3])
    live(p, st, s)
    w, _ = tape(st, s)
    if n:
        st.mem[tbase(s)] = Entry("copy", p.K(w), n, (a[0].base, a[0].off, st.mem.get(a[0].base)), st.mem.get(tbase(s)))
    st.events.append(("wr", s, n))
    return a[2]


def fread(p, i, st, a):
    sz, cnt = a[1], a[2]
    if not (sz * cnt).is_const():
        raise Unsupported("reads %s bytes" % (sz * cnt))
    n = int((sz * cnt).cval())
    if n:
        guard(p, st, a[0], n, "read in")
    s = sname(a[3])
    live(p, st, s)
    w, r = tape(st, s)
    got = min(n, w - r)
    bad = failing(p, st)
    if bad:
        got = max(0, got - 1) if sz.same(1) else 0
    if sz.cval():
        got -= got % int(sz.cval())
    if got:
        st.mem[a[0].base] = Entry("copy", a[0].off, got, (tbase(s), p.K(r), st.mem.get(tbase(s))), st.mem.get(a[0].base))
    st.events.append(("rd", s, got))
    if n > w - r:
        st.events.append(("eof", s))
    return p.K(got // int(sz.cval())) if sz.cval() else p.K(0)


def fgetc(p, i, st, a):
    s = sname(a[0])
    w, r = tape(st, s)
    if r >= w:
        st.events.append(("eof", s))
        return p.K(-1)
    st.events.append(("rd", s, 1))
    v = p._load(st, st.mem.get(tbase(s)), tbase(s), p.K(r), 1, "i8")
    return p.K(int(v.cval()) & 255) if v.is_const() else v


def parsefmt(f):
    """[literal text or conversion]"""
    import re
    out = []
    for m in re.finditer(r"%[-+ #0]*(?:\*|\d+)?(?:\.(?:\*|\d+))?(?:hh|h|ll|l|z|j|t|L)?[diouxXeEfFgGaAcspn%]|[^%]+", f):
        out.append(m.group(0))
    return out


def render(p, st, fmt, args):
    """bytes of formatted output; a converted number is one symbolic character"""
    import re
    out, args = [], list(args)
    for t in parsefmt(fmt):
        if t == "%%":
            out.append(p.K(37))
        elif t[0] != "%":
            out += [p.K(ord(ch)) for ch in t]
        elif t[-1] == "s":
            if t.count("*") == 1 and "." not in t and args[0].is_const():
                t = t.replace("*", str(int(args.pop(0).cval())))
            if "*" in t or "." in t:
                raise Unsupported("conversion %s" % t)
            w = cstr(p, st, args.pop(0))
            n = int(t[1:-1] or "0")
            out += [p.K(32)] * max(0, n - len(w)) + w + [p.K(32)] * max(0, -n - len(w))
        elif t[-1] == "c":
            out.append(args.pop(0))
        else:
            pre = ""
            while "*" in t:
                pre += args.pop(0).show() + ";"
                t = t.replace("*", "@", 1)
            v = args.pop(0)
            if isinstance(v, R) and v.is_const() and re.fullmatch(r"%[-+ 0]*\d*(l|ll|z)?[diuxX]", t) and (t[-1] in "di" or v.cval() >= 0):
                out += [p.K(ord(ch)) for ch in re.sub("[lz]", "", t) % int(v.cval())]
                continue
            nm = p.V("fmt(%s%s|%s)" % (pre, t, v.show() if isinstance(v, R) else "%s" % (v,)))
            p.ctx.__dict__.setdefault("numbers", {})[nm.show()] = (pre + t, v)
            if t in INTFMT + EXACT and not isinstance(v, Ptr):
                # first character of a number: a sign or a digit
                c = p.assume(p.assume(st.cons, nm - 45, ZERO | POS), nm - 57, NEG | ZERO)
            else:
                c = p.assume(st.cons, nm, POS)
            st.cons = c
            out.append(nm)
    return out


EXACT = ("%.17g", "%.16e", "%.17e", "%a", "%.18g", "%.20g", "%.20e", "%.18e", "%.19e", "%.17G", "%.16E", "%.17E")
INTFMT = ("%d", "%i", "%ld", "%lld", "%zd", "%zu", "%lu", "%u", "%llu", "%jd", "%ju")


def number(p, st, a, base10):
    """value and end of the number at a string position"""
    q, k = a[0], 0
    while True:
        b = byte(p, st, q, k)
        if b.is_const() and int(b.cval()) in (32, 9, 10, 11, 12, 13):
            k += 1
            continue
        break
    t = p.ctx.__dict__.get("numbers", {}).get(b.show())
    if t is not None:
        f, v = t
        n = byte(p, st, q, k + 1)
        if not n.is_const() or chr(int(n.cval()) % 256) in "0123456789.eE":
            raise Unsupported("printed number followed by %s" % n.show())
        if base10 and f not in INTFMT:
            v = p.V("int(%s|%s)" % (f, v.show()))
        elif not base10 and f not in EXACT and f not in INTFMT:
            v = p.V("rounded(%s|%s)" % (f, v.show()))
        return v, Ptr(q.base, q.off + k + 1)
    txt, j = "", k
    while True:
        b = byte(p, st, q, j)
        if not b.is_const():
            if not txt or not txt.strip("+-"):
                raise Unsupported("number text %s" % b.show())
            # a symbolic character ends the number only when it cannot extend it
            raise Unsupported("number followed by %s" % b.show())
        ch = chr(int(b.cval()) % 256)
        if ch == "\0" or ch not in ("+-0123456789" if base10 else "+-0123456789.eE"):
            break
        txt += ch
        j += 1
    import re
    m = re.match(r"[+-]?\d+" if base10 else r"[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?", txt)
    if not m:
        return p.K(0), q
    return p.K(Fraction(m.group(0))), Ptr(q.base, q.off + k + m.end())


def in_base(p, st, q, base):
    """constant digits of another base: value and end"""
    txt, k = "", 0
    while len(txt) < 40:
        b = byte(p, st, q, k)
        if not b.is_const():
            raise Unsupported("number text %s" % b.show())
        if b.cval() == 0:
            break
        txt += chr(int(b.cval()) % 256)
        k += 1
    import re
    m = re.match(r"\s*[+-]?0[xX][0-9a-fA-F]+", txt) if base in (0, 16) else None
    if m:
        return p.K(int(m.group(0), 16)), Ptr(q.base, q.off + m.end())
    if base == 0:
        base = 8 if re.match(r"\s*[+-]?0", txt) else 10
    m = re.match(r"\s*[+-]?" + {8: "[0-7]+", 10: "[0-9]+", 16: "[0-9a-fA-F]+"}[base], txt)
    if not m:
        return p.K(0), q
    return p.K(int(m.group(0), base)), Ptr(q.base, q.off + m.end())


def strto(base10):
    def h(p, i, st, a):
        base = int(a[2].cval()) if base10 and len(a) > 2 else 10
        b0 = byte(p, st, a[0], 0)
        t = p.ctx.__dict__.get("numbers", {}).get(b0.show())
        if base10 and t is not None and t[0][-1] in "gGeEfF":
            # a printed real number: an integer only if it is whole
            fr = p.V("frac(%s|%s)" % (t[0], t[1].show() if isinstance(t[1], R) else t[1]))
            out = []
            for s in (ZERO, POS):
                cons = p.assume(st.cons, fr, s)
                if cons is None:
                    continue
                s2 = st.clone()
                s2.cons = cons
                e = Ptr(a[0].base, a[0].off + 1)
                if s == POS:
                    s2.mem["heapfrac"] = Entry("store", p.K(0), 1, p.K(46), None)
                    e = Ptr("heapfrac", p.K(0))
                if len(a) > 1 and isinstance(a[1], Ptr) and a[1].base != "null":
                    guard(p, s2, a[1], 8, "write")
                    s2.mem[a[1].base] = Entry("store", a[1].off, 8, e, s2.mem.get(a[1].base))
                out.append((s2, t[1] if s == ZERO else p.V("int(%s|%s)" % (t[0], t[1].show()))))
            return out
        if base10 and base != 10 and t is None:
            v, e = in_base(p, st, a[0], base)
        else:
            v, e = number(p, st, a, base10)
        if len(a) > 1 and isinstance(a[1], Ptr) and a[1].base != "null":
            guard(p, st, a[1], 8, "write")
            st.mem[a[1].base] = Entry("store", a[1].off, 8, e, st.mem.get(a[1].base))
        return v
    return h


def ctype_value(p, off, size):
    if not off.is_const():
        raise Unsupported("character class of an unknown character")
    c = int(off.cval()) // 2 - 128
    ch = chr(c) if 0 <= c < 128 else None
    if ch is None:
        return p.K(0)
    v = 0
    for bit, ok in ((8, ch.isupper()), (9, ch.islower()), (10, ch.isalpha()), (11, ch.isdigit()), (12, ch in "0123456789abcdefABCDEF"), (13, ch in " \t\n\v\f\r"),
                    (14, 32 <= c < 127), (15, 33 <= c < 127), (0, ch in " \t"), (1, c < 32 or c == 127), (2, 33 <= c < 127 and not ch.isalnum()), (3, ch.isalnum())):
        if ok:
            v |= 1 << bit
    return p.K(v)


def ctype(p, i, st, a):
    p.rom["heapctype"] = ctype_value
    st.mem["heapctypep"] = Entry("store", p.K(0), 8, Ptr("heapctype", p.K(256)), None)
    return Ptr("heapctypep", p.K(0))


def casemap(name, lower):
    def value(p, off, size):
        if not off.is_const():
            raise Unsupported("case of an unknown character")
        c = int(off.cval()) // 4 - 128
        if lower and 65 <= c <= 90:
            c += 32
        elif not lower and 97 <= c <= 122:
            c -= 32
        return p.K(c)

    def h(p, i, st, a):
        p.rom["heap" + name] = value
        st.mem["heap" + name + "p"] = Entry("store", p.K(0), 8, Ptr("heap" + name, p.K(512)), None)
        return Ptr("heap" + name + "p", p.K(0))
    return h


def casefn(lower):
    def h(p, i, st, a):
        if not a[0].is_const():
            raise Unsupported("case of an unknown character")
        c = int(a[0].cval())
        return p.K(c + 32 if lower and 65 <= c <= 90 else c - 32 if not lower and 97 <= c <= 122 else c)
    return h


def fstr(p, i, st, a):
    """nx_fstr: formatted string in memory of its own"""
    f = gtext(p, a[0])
    if f is None:
        raise Unsupported("format at %s is not a constant" % where(p))
    try:
        bs = render(p, st, f, a[1:])
    except Unsupported:
        # the text is not followed: memory of its own with unknown content
        q = _new(p, i, st, p.K(4096))
        st.mem[q.base] = Entry("havoc", None, None, "text", None)
        return q
    q = _new(p, i, st, p.K(len(bs) + 1))
    put(p, st, q, bs + [0])
    return q


def gtext(p, ptr):
    """text of a constant string"""
    if not isinstance(ptr, Ptr):
        return None
    out = []
    for k in range(2000):
        v = p._load(None, None, ptr.base, ptr.off + k, 1, "i8")
        if not isinstance(v, R) or not v.is_const():
            return None
        if v.cval() == 0:
            return "".join(out)
        out.append(chr(int(v.cval()) % 256))
    return None


def fprintf(p, i, st, a):
    f = gtext(p, a[1])
    if f is None:
        raise Unsupported("format at %s is not a constant" % where(p))
    if failing(p, st):
        return p.K(-1)
    bs = render(p, st, f, a[2:])
    emit(p, st, a[0], bs)
    return p.K(len(bs))


def vargs(p, st, f, va):
    """arguments of a format from a va_list"""
    ld = lambda o, n, ty: p._load(st, st.mem.get(va.base), va.base, va.off + o, n, ty)
    if not isinstance(va, Ptr) or not (ld(0, 4, "i32").is_const() and ld(0, 4, "i32").cval() == 48 and ld(4, 4, "i32").is_const() and ld(4, 4, "i32").cval() == 176):
        raise Unsupported("argument list")
    q, out = ld(8, 8, "ptr"), []

    def get(n, ty):
        o = q.off + 8 * len(out)
        try:
            return p._load(st, st.mem.get(q.base), q.base, o, n, ty)
        except Unsupported:
            if n != 4:
                raise
            return p._load(st, st.mem.get(q.base), q.base, o, 8, "i64")
    for t in parsefmt(f):
        if t[0] != "%" or t == "%%":
            continue
        for _ in range(t.count("*")):
            out.append(get(4, "i32"))
        ty = ("ptr", 8) if t[-1] in "sp" else ("double", 8) if t[-1] in "eEfFgGaA" else ("i64", 8) if any(c in t for c in "lzjt") else ("i32", 4)
        out.append(get(ty[1], ty[0]))
    return out


def ftext(p, st, q):
    """a format: a constant string, or a string of known characters"""
    f = gtext(p, q)
    if f is None:
        c = cstr(p, st, q)
        if not all(x.is_const() for x in c):
            raise Unsupported("format at %s is not a constant" % where(p))
        f = "".join(chr(int(x.cval()) % 256) for x in c)
    return f


def vfprintf(p, i, st, a):
    f = ftext(p, st, a[1])
    if failing(p, st):
        return p.K(-1)
    bs = render(p, st, f, vargs(p, st, f, a[2]))
    emit(p, st, a[0], bs)
    return p.K(len(bs))


def snprintf(p, i, st, a):
    f = gtext(p, a[2])
    if f is None or not a[1].is_const():
        raise Unsupported("format at %s is not a constant" % where(p))
    bs = render(p, st, f, a[3:])
    n = int(a[1].cval())
    if n > 0:
        put(p, st, a[0], bs[:n - 1] + [0])
    return p.K(len(bs))


def sprintf(p, i, st, a):
    f = gtext(p, a[1])
    if f is None:
        raise Unsupported("format at %s is not a constant" % where(p))
    bs = render(p, st, f, a[2:])
    put(p, st, a[0], bs + [0])
    return p.K(len(bs))


def vsnprintf(p, i, st, a):
    f = ftext(p, st, a[2])
    if not a[1].is_const():
        raise Unsupported("size of the text at %s is not known" % where(p))
    bs = render(p, st, f, vargs(p, st, f, a[3]))
    n = int(a[1].cval())
    if n > 0:
        put(p, st, a[0], bs[:n - 1] + [0])
    return p.K(len(bs))


def written(c, st, stream="stream"):
    """bytes of a stream in the final state"""
    w, _ = tape(st, stream)
    return [c.p._load(st, st.mem.get(tbase(stream)), tbase(stream), c.K(k), 1, "i8") for k in range(w)]


def give(p, st, stream, chars):
    """a stream that holds the given bytes"""
    if len(chars) > 500 and st.mem.get(tbase(stream)) is None:
        vs = [p.V(ch) if isinstance(ch, str) else ch if isinstance(ch, R) else p.K(ch) for ch in chars]

        def at(off, size, ty):
            if size != 1 or not off.is_const():
                raise Unsupported("load from a text")
            return vs[int(off.cval())]
        st.mem[tbase(stream)] = Entry("fn", p.K(0), len(vs), at, None)
        st.events.append(("load", stream, len(chars)))
        return
    for k, ch in enumerate(chars):
        v = p.V(ch) if isinstance(ch, str) else ch if isinstance(ch, R) else p.K(ch)
        st.mem[tbase(stream)] = Entry("store", p.K(k), 1, v, st.mem.get(tbase(stream)))
    st.events.append(("load", stream, len(chars)))


# ---------------------------------------------------------------- files
def live(p, st, s):
    """a stream that was opened here must still be open"""
    ev = [e[0] for e in st.events if e[0] in ("open", "closed") and e[1] == s]
    if ev and ev[-1] == "closed":
        fault(p, st, "use of a closed stream")


def fopen(p, i, st, a):
    m = ftext(p, st, a[1])
    if failing(p, st):
        return Ptr("null", p.K(0))
    s = "stream"
    w, r = tape(st, s)
    if r:
        st.events.append(("rd", s, -r))
    if m[0] == "w":
        st.events.append(("wr", s, -w))
        st.mem.pop(tbase(s), None)
    st.events.append(("open", s, m))
    p.exists.add(s)
    return Ptr(s, p.K(0))


def fclose(p, i, st, a):
    s = sname(a[0])
    live(p, st, s)
    bad = failing(p, st)
    st.events.append(("closed", s))
    return p.K(-1 if bad else 0)


def ferror(p, i, st, a):
    s, k = sname(a[0]), getattr(p.ctx, "fail_at", None)
    live(p, st, s)
    seen = False
    for e in st.events:
        if e[0] == "open" and e[1] == s:
            seen = False
        elif e[0] == "io" and e[1] == k:
            seen = True
    return p.K(int(seen))


def ungetc(p, i, st, a):
    s = sname(a[1])
    if not a[0].is_const():
        raise Unsupported("ungetc of an unknown character")
    if a[0].cval() == -1:
        return p.K(-1)
    st.events.append(("rd", s, -1))
    _, r = tape(st, s)
    st.mem[tbase(s)] = Entry("store", p.K(r), 1, a[0], st.mem.get(tbase(s)))
    return a[0]


def feof(p, i, st, a):
    """set by a read that ran into the end, cleared by opening and putting back"""
    s, seen = sname(a[0]), 0
    for e in st.events:
        if len(e) > 1 and e[1] == s:
            if e[0] == "eof":
                seen = 1
            elif e[0] == "open" or e[0] == "rd" and e[2] < 0:
                seen = 0
    return p.K(seen)


def fgets(p, i, st, a):
    s = sname(a[2])
    live(p, st, s)
    w, r = tape(st, s)
    n, k = int(a[1].cval()), 0
    if r >= w:
        st.events.append(("eof", s))
        return Ptr("null", p.K(0))
    if failing(p, st):
        return Ptr("null", p.K(0))
    guard(p, st, a[0], n, "read in")
    while k < n - 1 and r + k < w:
        v = p._load(st, st.mem.get(tbase(s)), tbase(s), p.K(r + k), 1, "i8")
        st.mem[a[0].base] = Entry("store", a[0].off + k, 1, v, st.mem.get(a[0].base))
        k += 1
        if v.is_const() and v.cval() == 10:
            break
        if not v.is_const() and not p.sign_under(st.cons, v - 10) & ZERO == 0:
            raise Unsupported("line with an unknown character")
    st.mem[a[0].base] = Entry("store", a[0].off + k, 1, p.K(0), st.mem.get(a[0].base))
    st.events.append(("rd", s, k))
    if r + k >= w and k < n - 1 and not (v.is_const() and v.cval() == 10):
        st.events.append(("eof", s))
    return a[0]


def fscanf(p, i, st, a):
    import re
    f = gtext(p, a[1])
    if f is None:
        raise Unsupported("format of fscanf")
    s = sname(a[0])
    live(p, st, s)
    w, r = tape(st, s)
    hit = []

    def at(k):
        if k >= w:
            hit.append(k)
            return None
        return p._load(st, st.mem.get(tbase(s)), tbase(s), p.K(k), 1, "i8")
    k, done, args = r, 0, list(a[2:])
    nums = p.ctx.__dict__.get("numbers", {})

    def space(k):
        while True:
            v = at(k)
            if v is None or not v.is_const() or int(v.cval()) not in (32, 9, 10, 11, 12, 13):
                return k
            k += 1

    def out(q, n, v):
        guard(p, st, q, n, "read in")
        st.mem[q.base] = Entry("store", q.off, n, v, st.mem.get(q.base))
    bad = failing(p, st)
    for t in re.findall(r"%%|%\*?\d*(?:hh|h|ll|l|z)?[a-zA-Z]|\s+|[^%\s]", f):
        if bad:
            break
        if t.isspace():
            k = space(k)
            continue
        if t[0] != "%" or t == "%%":
            v = at(k)
            if v is not None and not v.is_const():
                raise Unsupported("scan of an unknown character")
            if v is None or int(v.cval()) % 256 != ord(t[0]):
                bad = v is None
                break
            k += 1
            continue
        if "*" in t:
            raise Unsupported("scan directive %s" % t)
        if t[-1] == "c":
            v = at(k)
            if v is None:
                bad = True
                break
            out(args.pop(0), 1, v)
            k, done = k + 1, done + 1
            continue
        k = space(k)
        v = at(k)
        if v is None:
            bad = True
            break
        if t[-1] == "s":
            q, n = args.pop(0), 0
            lim = int(t[1:-1] or 1000)
            while n < lim and at(k) is not None and not (at(k).is_const() and int(at(k).cval()) in (32, 9, 10, 11, 12, 13)):
                if not at(k).is_const():
                    raise Unsupported("scan of an unknown character")
                out(Ptr(q.base, q.off + n), 1, at(k))
                k, n = k + 1, n + 1
            out(Ptr(q.base, q.off + n), 1, p.K(0))
            done += 1
            continue
        if t[-1] not in "diufgeEG":
            raise Unsupported("scan directive %s" % t)
        real = t[-1] not in "diu"
        size = 8 if "l" in t or "z" in t else 4
        nm = nums.get(v.show())
        if nm is not None:
            ff, x = nm
            if real and ff not in EXACT and ff not in INTFMT or not real and ff not in INTFMT:
                x = p.V("rounded(%s|%s)" % (ff, x.show()))
            k += 1
            at(k)
        else:
            txt = ""
            while at(k + len(txt)) is not None and at(k + len(txt)).is_const() and chr(int(at(k + len(txt)).cval()) % 256) in ("+-0123456789.eE" if real else "+-0123456789"):
                txt += chr(int(at(k + len(txt)).cval()))
            z = at(k + len(txt))
            if z is not None and not z.is_const():
                raise Unsupported("number followed by an unknown character")
            m = re.match(r"[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?" if real else r"[+-]?\d+", txt)
            if not m:
                break
            x = p.K(Fraction(m.group(0)))
            k += m.end()
        out(args.pop(0), size, x)
        done += 1
    st.events.append(("rd", s, k - r))
    if hit:
        st.events.append(("eof", s))
    return p.K(-1 if bad and not done else done)


def errno(p, i, st, a):
    return Ptr("heaperrno", p.K(0))


def none(p, i, st, a):
    return None


def message(p, i, st, a):
    return Ptr("heapmessage", p.K(0))


IO = {"strtod": strto(False), "atof": strto(False), "strtol": strto(True), "atoi": strto(True), "atol": strto(True), "__isoc23_strtol": strto(True), "__ctype_b_loc": ctype, "nx_fstr": fstr,
      "perror": none, "strerror": message, "__errno_location": errno, "fputc": fputc, "putc": fputc, "_IO_putc": fputc, "fputs": fputs, "fwrite": fwrite, "fread": fread, "fgetc": fgetc, "getc": fgetc, "_IO_getc": fgetc,
      "__ctype_tolower_loc": casemap("lower", True), "__ctype_toupper_loc": casemap("upper", False), "tolower": casefn(True), "toupper": casefn(False),
      "fopen": fopen, "fclose": fclose, "ferror": ferror, "feof": feof, "ungetc": ungetc, "fgets": fgets, "fscanf": fscanf, "__isoc99_fscanf": fscanf, "__isoc23_fscanf": fscanf,
      "fprintf": fprintf, "vfprintf": vfprintf, "snprintf": snprintf, "sprintf": sprintf, "vsnprintf": vsnprintf}

LIB = {"malloc": malloc, "calloc": calloc, "realloc": realloc, "free": free, "aligned_alloc": malloc, "strlen": strlen, "strcpy": strcpy,
       **IO, "strncpy": strncpy, "strcat": strcat, "strcmp": strcmp, "strncmp": strncmp, "strchr": strchr, "strrchr": strrchr}


FOLLOW = object()    # opaque={name: FOLLOW}: a function of LIB that is analysed itself


class HCase(Case):
    def __init__(self, mod, alias, opaque=None, init=None, ctx=None, inits=False, **kw):
        h = dict(LIB)
        h.update(opaque or {})
        h = {k: f for k, f in h.items() if f is not FOLLOW}

        def init2(p, st):
            p.guard = guard
            p.follow = True
            p.inits = inits
            if init:
                init(p, st)
        self.h = h
        kw.setdefault("unroll", True)
        kw.setdefault("distinct", True)
        super().__init__(mod, alias, opaque=h, init=init2, ctx=ctx or Ctx(), **kw)


def slots(c, st, base, size):
    out = []
    for o in range(0, size, 8):
        try:
            v = c.p._load(st, st.mem.get(base), base, c.K(o), 8, "ptr")
        except Unsupported:
            continue
        if isinstance(v, Ptr):
            out.append(v)
    return out


def leaks(c, st, roots=()):
    """blocks that are still allocated but reachable neither from the result nor from the given objects"""
    size = {}
    for e in st.events:
        if e[0] == "blk":
            size[e[1]] = int(e[2].cval()) if e[2].is_const() else 0
    seen, work = set(), list(roots) + ([st.ret.base] if isinstance(st.ret, Ptr) else [])
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        if b.startswith("*") or b not in size and b not in st.mem:
            continue
        for v in slots(c, st, b, min(size.get(b, 256), 4096)):
            work.append(v.base)
    return [b for b in size if b not in seen and block(st, b)[1]]


def sound(rep, rule, inst, c, st, roots=(), keep=()):
    """no fault on this path, no leak"""
    fs = [e for e in st.events if e[0] == "fault"]
    rep.check(not fs, rule, inst + ": memory use", fs[0][2] if fs else c.fn.where(), fs[0][1] if fs else "")
    lk = [b for b in leaks(c, st, roots) if b not in keep]
    rep.check(not lk, rule, inst + ": nothing is lost", c.fn.where(), "still allocated and unreachable: %s (when %s)" % (lk, guard_text(st)[:200]))
    return not fs and not lk


def mkstr(p, st, base, chars, size=None, owned=True):
    """a terminated string of the given bytes (numbers, or names of symbolic non-zero bytes) in a block of its own"""
    register(p, st, base, size if size is not None else len(chars) + 1, owned)
    for k, ch in enumerate(list(chars) + [0]):
        v = p.V(ch) if isinstance(ch, str) else p.K(ch)
        if isinstance(ch, str):
            st.cons = p.assume(st.cons, v, POS)
        st.mem[base] = Entry("store", p.K(k), 1, v, st.mem.get(base))
    return Ptr(base, p.K(0))


def getstr(c, st, ptr):
    """bytes of a string in the final state, None when it is not one"""
    if not isinstance(ptr, Ptr) or ptr.base == "null":
        return None
    b = block(st, ptr.base)
    if b and not b[1]:
        return None
    out = []
    for k in range(300):
        try:
            v = c.p._load(st, st.mem.get(ptr.base), ptr.base, ptr.off + k, 1, "i8")
        except Unsupported:
            return None
        if not isinstance(v, R) or JUNK in v.show():
            return None
        s = c.p.sign_under(st.cons, v)
        if s == ZERO:
            return out
        if s & ZERO:
            return None
        out.append(v)
    return None


def samestr(c, got, want):
    return got is not None and len(got) == len(want) and all(g.same(c.V(w) if isinstance(w, str) else c.K(w)) or (not isinstance(w, str) and g.is_const() and (g.cval() - w) % 256 == 0) for g, w in zip(got, want))


class Fatal(Exception):
    pass


class Session:
    """a history of calls: each runs on the memory the one before left"""
    inits, laps = False, None

    def __init__(self, rep, rule, m, inst, opaque=None, ctx=None):
        self.rep, self.rule, self.m, self.inst, self.opaque = rep, rule, m, inst, opaque
        self.ctx = ctx or Ctx()
        self.ctx.fail_at = None
        self.mem, self.cons, self.events, self.todo = {}, [], [], []
        self.roots, self.k, self.faulty = [], 0, False

    def fork(self):
        s = Session(self.rep, self.rule, self.m, self.inst, self.opaque, self.ctx)
        s.mem, s.cons, s.events, s.todo, s.roots, s.k = dict(self.mem), list(self.cons), list(self.events), list(self.todo), list(self.roots), self.k
        s.faulty = self.faulty
        return s

    def K(self, v):
        return R.const(self.ctx, v)

    def V(self, n):
        return R.var(self.ctx, n)

    def assume(self, f):
        """f(p) gives constraints"""
        def t(p, st):
            for e, s in f(p):
                st.cons = p.assume(st.cons, e, s)
        self.todo.append(t)

    def text(self, chars, name=None):
        self.k += 1
        b = name or "heaptxt%d" % self.k
        ch = list(chars.encode()) if isinstance(chars, str) else list(chars)
        self.todo.append(lambda p, st: mkstr(p, st, b, ch))
        self.roots.append(b)
        return Ptr(b, self.K(0))

    def buf(self, n, name=None):
        self.k += 1
        b = name or "heapbuf%d" % self.k
        self.todo.append(lambda p, st: register(p, st, b, n))
        self.roots.append(b)
        return Ptr(b, self.K(0))

    def arg(self, v):
        return v if isinstance(v, (R, Ptr)) else Ptr("null", self.K(0)) if v is None else self.K(v)

    def run(self, fn, args, fail=None, va=None, **kw):
        todo = list(self.todo)

        def init(p, st):
            if self.laps:
                p.laps = self.laps
            if va is not None:
                p.varargs = [(self.arg(v), 8 if isinstance(v, (Ptr, type(None))) else w) for v, w in va]
            st.mem, st.cons, st.events = dict(self.mem), list(self.cons), list(self.events)
            for t in todo:
                t(p, st)
        self.ctx.fail_at = fail
        kw.setdefault("deadline", 60)
        return HCase(self.m, fn, init=init, ctx=self.ctx, argvals={k: self.arg(v) for k, v in enumerate(args)}, opaque=self.opaque, inits=self.inits, **kw)

    def after(self, c, st):
        self.c, self.st = c, st
        self.todo = []
        self.mem, self.cons, self.events = {b: e for b, e in st.mem.items() if not b.startswith("alloca")}, list(st.cons), list(st.events)
        fs = [e for e in st.events if e[0] == "fault"]
        if fs and not self.faulty:
            self.faulty = True
            self.rep.check(False, self.rule, self.inst + ": memory use", fs[0][2], fs[0][1])

    def calls(self, fn, *args, **kw):
        """every outcome: list of (session, result)"""
        try:
            c = self.run(fn, args, **kw)
        except Unsupported as e:
            if "never returns" in str(e):
                return []
            raise
        out = []
        for st in c.parts:
            s = self.fork()
            s.after(c, st)
            out.append((s, st.ret))
        return out

    def call(self, fn, *args, **kw):
        """the single outcome"""
        try:
            c = self.run(fn, args, **kw)
        except Unsupported as e:
            if "never returns" in str(e):
                raise Fatal(fn)
            raise
        if len(c.parts) != 1:
            raise Unsupported("%s has %d outcomes" % (fn, len(c.parts)))
        self.after(c, c.parts[0])
        return self.st.ret

    def fatal(self, fn, *args, **kw):
        """does the call end in the fatal-error handler on every path?"""
        try:
            self.run(fn, args, **kw)
        except Unsupported as e:
            if "never returns" in str(e):
                return True
            raise
        return False

    def load(self, ptr, off, size, ty):
        return self.c.p._load(self.st, self.mem.get(ptr.base), ptr.base, ptr.off + off, size, ty)

    def str(self, ptr):
        return getstr(self.c, self.st, ptr)

    def ok(self, cond, what, text):
        self.rep.check(cond, self.rule, "%s: %s" % (self.inst, what), self.c.fn.where() if hasattr(self, "c") else self.inst, text)
        return cond

    def end(self, roots=()):
        """nothing is lost"""
        if not self.faulty:
            self.rep.check(True, self.rule, self.inst + ": memory use", "", "")
        self.st.ret = None
        lk = leaks(self.c, self.st, list(self.roots) + list(roots))
        self.rep.check(not lk, self.rule, self.inst + ": nothing is lost", self.c.fn.where(), "still allocated: %s" % lk)
