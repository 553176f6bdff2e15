"""Image files: what is saved is the image, what is loaded is the file, failures are reported and everything is released."""
from vlib.heap import *
from vlib.pix import set_field, get_field, field_off
from checks.p15 import isval
import itertools

LEVEL = "bounded"
API = ["nx_image_alloc", "nx_image_free", "nx_image_resize", "nx_image_save", "nx_image_load", "nx_image_xsave", "nx_image_xload", "nx_image_file_format_from_filename", "nx_image_file_format_from_header"]
API += ["nx_image_%s_%s" % (a, b) for a in ("save", "xsave", "load", "xload") for b in ("pnm", "png", "jpeg")]
GRAY, RGBA = 0, 1
MODES = {"NX_IMAGE_LOAD_AS_IS": "as is", "NX_IMAGE_LOAD_GRAYSCALE": "gray", "NX_IMAGE_LOAD_RGBA": "rgba"}


def run(rep):
    for part in (pnm_save, pnm_load, pnm_errors, png_save, png_load, jpeg_save, jpeg_load, dispatch):
        try:
            part(rep)
        except Unsupported as e:
            rep.undecide(part.__name__, e)
    for r, n in (("PNM saving", 40), ("PNM loading", 60), ("PNM errors", 30), ("PNG saving", 30), ("PNG loading", 60), ("JPEG saving", 30), ("JPEG loading", 40), ("image file format", 30)):
        rep.need(r, n)


_m = {}


def mod():
    if "m" not in _m:
        m = kernels([(f, f, None) for f in API], name="p20", opaque=["nx_rgb_to_gray_uc"])
        e = m.enum("NXImageType")
        lm = m.enum("NXImageLoadMode")
        if not e or e.get("NX_IMAGE_GRAYSCALE") is None or not lm or any(k not in lm for k in MODES):
            raise Unsupported("image types %s %s" % (e, lm))
        _m.update(m=m, T={GRAY: e["NX_IMAGE_GRAYSCALE"], RGBA: e["NX_IMAGE_RGBA"]}, M={v: lm[k] for k, v in MODES.items()}, U=m.enum("NXImageDataType")["NX_IMAGE_UCHAR"])
    return _m["m"]


class Img(Session):
    def __init__(self, rep, rule, inst, opaque=None):
        super().__init__(rep, rule, mod(), inst, opaque={"nx_rgb_to_gray_uc": lambda p, i, st, a: app(p.ctx, "luminance", *a), **(opaque or {})})
        self.im = None

    def fork(self):
        s = Img(self.rep, self.rule, self.inst, self.opaque)
        o = super().fork()
        for a in ("ctx", "mem", "cons", "events", "todo", "roots", "k", "faulty"):
            setattr(s, a, getattr(o, a))
        s.im = self.im
        return s

    def make(self, w=0, h=0, ty=GRAY, stride=-1):
        self.im = self.call("nx_image_alloc")
        if w:
            self.call("nx_image_resize", self.im, w, h, stride, _m["T"][ty], _m["U"])
            self.fill()
        self.roots.append(self.im.base)
        return self

    def field(self, f, ty="i32"):
        return get_field(self.c.p, self.st, self.im.base, "NXImage", f, ty)

    def fill(self):
        """every byte of the image is a symbol"""
        d, n = self.field("data", "ptr"), int((self.field("row_stride") * self.field("height")).cval())

        def t(p, st):
            for k in range(n):
                v = p.V("p%d" % k)
                st.cons = p.assume(p.assume(st.cons, v, ZERO | POS), v - 255, NEG | ZERO)
                st.mem[d.base] = Entry("store", d.off + k, 1, v, st.mem.get(d.base))
        self.todo.append(t)
        self.data = d

    def pix(self, x, y, c=0):
        st, n = self.field("row_stride"), self.field("n_channels")
        try:
            return self.c.p._load(self.st, self.mem.get(self.dp.base), self.dp.base, self.dp.off + st * y + n * x + c, 1, "i8")
        except Unsupported:
            return None

    def shape(self, w, h, ty):
        g = [self.field(f) for f in ("width", "height", "type", "n_channels", "dtype")]
        want = [w, h, _m["T"][ty], 1 if ty == GRAY else 4, _m["U"]]
        self.dp = self.field("data", "ptr")
        ok = all(isval(a, self.K(b)) for a, b in zip(g, want))
        self.ok(ok, "size and type", "is %s, not %s" % ([x.show() for x in g], want))
        return ok and isinstance(self.dp, Ptr)

    def opened(self):
        o = sum(1 for e in self.events if e[0] == "open")
        c = sum(1 for e in self.events if e[0] == "closed")
        self.ok(o == c, "every file is closed", "%d opened, %d closed" % (o, c))

    def done(self):
        self.opened()
        self.call("nx_image_free", self.im)
        self.roots.remove(self.im.base)
        self.end()


def session(f):
    def g(rep, rule, *a):
        try:
            f(rep, rule, *a)
        except Fatal as e:
            rep.check(False, rule, "%s" % (a,), str(e), "a legal call ends in a fatal error")
        except Unsupported as e:
            rep.undecide("%s %s" % (f.__name__, (a,)), e)
    return g


SHAPES = [(1, 1, GRAY, -1), (3, 2, GRAY, 5), (2, 3, GRAY, -1), (1, 1, RGBA, -1), (2, 3, RGBA, 11), (3, 2, RGBA, -1)]


def hdr(bs):
    """tokens of a PNM header and the position of the data"""
    k, tok = 0, []
    while len(tok) < 4:
        t = ""
        while k < len(bs) and bs[k].is_const() and chr(int(bs[k].cval())).isspace():
            k += 1
        while k < len(bs) and bs[k].is_const() and not chr(int(bs[k].cval())).isspace():
            t += chr(int(bs[k].cval()))
            k += 1
        if not t:
            return None, 0
        tok.append(t)
    return tok, k + 1


def pnm_save(rep):
    rule = "PNM saving"

    @session
    def save(rep, rule, fn, w, h, ty, stride):
        s = Img(rep, rule, "%s %dx%d %s stride %d" % (fn, w, h, "gray" if ty == GRAY else "rgba", stride)).make(w, h, ty, stride)
        rs = int(s.field("row_stride").cval())
        s.call(fn, s.im, s.text("f.pgm"))
        s.ok(fn.startswith("nx_image_x") or isval(s.st.ret, s.K(0)), "succeeds", "returns %s" % s.st.ret)
        bs = written(s.c, s.st)
        tok, k = hdr(bs)
        s.ok(tok == ["P5" if ty == GRAY else "P6", str(w), str(h), "255"], "header", "is %s" % tok)
        want = [y * rs + (x if ty == GRAY else 4 * x + c) for y in range(h) for x in range(w) for c in range(1 if ty == GRAY else 3)]
        ok = tok is not None and len(bs) - k == len(want) and all(b.same(s.V("p%d" % n)) for b, n in zip(bs[k:], want))
        s.ok(ok, "pixels", "%d bytes %s" % (len(bs) - k, [b.show() for b in bs[k:k + 12]]))
        s.done()

    @session
    def broken(rep, rule, fn, ty, at):
        s = Img(rep, rule, "%s %s: operation %d fails" % (fn, "gray" if ty == GRAY else "rgba", at)).make(2, 2, ty)
        x = fn.startswith("nx_image_x")
        name = s.text("f.pgm")
        n0 = nth(s.st)
        if x:
            rep.check(s.fatal(fn, s.im, name, fail=n0 + at), rule, s.inst, fn, "a failed write is not reported")
            return
        s.call(fn, s.im, name, fail=n0 + at)
        s.ok(not isval(s.st.ret, s.K(0)), "is reported", "returns success")
        s.ctx.fail_at = None
        s.done()
    for fn in ("nx_image_save_pnm", "nx_image_xsave_pnm", "nx_image_save", "nx_image_xsave"):
        for q in SHAPES:
            save(rep, rule, fn, *q)
        for ty, n in ((GRAY, 5), (RGBA, 7)):
            for at in range(n):
                broken(rep, rule, fn, ty, at)


def ppm(kind, w, h, head=None):
    hd = head or "P%d\n%d %d\n255\n" % (5 if kind == GRAY else 6, w, h)
    return list(hd.encode()) + ["q%d" % k for k in range(w * h * (1 if kind == GRAY else 3))]


def outtype(mode, kind):
    return GRAY if mode == "gray" else RGBA if mode == "rgba" else kind


def judge(s, kind, mode, w, h, lum):
    ty = outtype(mode, kind)
    if not s.shape(w, h, ty):
        return
    bad = None
    for y in range(h):
        for x in range(w):
            k = y * w + x
            q = [s.V("q%d" % k)] * 3 if kind == GRAY else [s.V("q%d" % (3 * k + c)) for c in range(3)]
            if ty == RGBA:
                want = q + [s.K(255)]
                got = [s.pix(x, y, c) for c in range(4)]
            else:
                want, got = [q[0] if kind == GRAY else lum(q)], [s.pix(x, y)]
            if not all(eqb(g, v) for g, v in zip(got, want)):
                bad = bad or "pixel %d,%d is %s, not %s" % (x, y, [str(g) for g in got], [v.show() for v in want])
    s.ok(bad is None, "pixels", bad or "")


def luminance(s):
    return lambda q: app(s.ctx, "luminance", *q)


def eqb(g, v):
    """the same byte"""
    return isinstance(g, R) and (g.same(v) or g.is_const() and v.is_const() and (g.cval() - v.cval()) % 256 == 0)


def bytes_range(s, n):
    s.assume(lambda p: [x for k in range(n) for x in ((p.V("q%d" % k), ZERO | POS), (p.V("q%d" % k) - 255, NEG | ZERO))])


def pnm_load(rep):
    rule = "PNM loading"

    @session
    def load(rep, rule, fn, kind, mode, w, h, was, head):
        s = Img(rep, rule, "%s %s %dx%d as %s%s%s" % (fn, "P5" if kind == GRAY else "P6", w, h, mode, " into an image in use" if was else "", " header %r" % head if head else "")).make(*(was or ()))
        bytes_range(s, 3 * w * h)
        bs = ppm(kind, w, h, head)
        s.todo.append(lambda p, st: give(p, st, "stream", bs))
        r = s.call(fn, s.im, s.text("f.pgm"), _m["M"][mode])
        s.ok(fn.startswith("nx_image_x") or isval(r, s.K(0)), "succeeds", "returns %s" % r)
        judge(s, kind, mode, w, h, luminance(s))
        s.done()
    mod()
    for fn in ("nx_image_load_pnm", "nx_image_xload_pnm", "nx_image_load", "nx_image_xload"):
        for kind in (GRAY, RGBA):
            for mode in _m["M"]:
                for w, h, was in ((1, 1, None), (3, 2, (2, 3, RGBA, 11))):
                    load(rep, rule, fn, kind, mode, w, h, was, None)
        load(rep, rule, fn, GRAY, "as is", 2, 2, (2, 2, GRAY, 5), None)
        for head in ("P5 2 1 255 ", "P5\n2 1 255\n", "P5\n2 1\n255\n", "P5\t2\t1\t255\t", "P5\n# made by hand\n2 1\n255\n", "P5\n#a\n# b c\n2\n1\n255\n"):
            load(rep, rule, fn, GRAY, "as is", 2, 1, None, head)


def pnm_errors(rep):
    rule = "PNM errors"

    @session
    def bad(rep, rule, fn, what, bs, mode):
        s = Img(rep, rule, "%s: %s" % (fn, what)).make(2, 2, GRAY)
        bytes_range(s, 20)
        s.todo.append(lambda p, st: give(p, st, "stream", bs))
        n = s.text("f.pgm")
        if fn.startswith("nx_image_x"):
            rep.check(s.fatal(fn, s.im, n, _m["M"][mode]), rule, s.inst, fn, "a damaged file is accepted")
            return
        s.call(fn, s.im, n, _m["M"][mode])
        s.ok(not isval(s.st.ret, s.K(0)), "is reported", "returns success")
        s.done()

    @session
    def gone(rep, rule, fn):
        s = Img(rep, rule, "%s: no such file" % fn).make(2, 2, GRAY)
        n = s.text("f.pgm")
        if fn.startswith("nx_image_x"):
            rep.check(s.fatal(fn, s.im, n, 0, fail=nth(s.st)), rule, s.inst, fn, "a missing file is accepted")
            return
        s.call(fn, s.im, n, 0, fail=nth(s.st))
        s.ok(not isval(s.st.ret, s.K(0)), "is reported", "returns success")
        s.ctx.fail_at = None
        s.done()
    mod()
    B = lambda t: list(t.encode())
    for fn in ("nx_image_load_pnm", "nx_image_xload_pnm", "nx_image_load", "nx_image_xload"):
        gone(rep, rule, fn)
        for what, t in (("empty", ""), ("one byte", "P"), ("another magic", "P4\n2 2\n255\n"), ("ASCII", "P2\n2 2\n255\n1 2 3 4\n"), ("not an image", "abcdefgh"), ("no size", "P5\n"), ("no height", "P5\n2 "), ("no levels", "P5\n2 2"), ("text for a size", "P5\nx 2 255\n"), ("no pixels", "P5\n2 2 255")):
            bad(rep, rule, fn, what, B(t), "as is")
        for kind in (GRAY, RGBA):
            for mode in _m["M"]:
                for cut in (1, 3):
                    bad(rep, rule, fn, "%s as %s, last %d bytes missing" % ("P5" if kind == GRAY else "P6", mode, cut), ppm(kind, 2, 2)[:-cut], mode)


# ---------------------------------------------------------------- PNG: the library is a machine that applies the transformations asked for
CT = {"gray": 0, "rgb": 2, "palette": 3, "gray+alpha": 4, "rgb+alpha": 6}


def channels(kind, trns, tr):
    """what a row holds after the transformations: list of names per pixel"""
    c = {"gray": ["g"], "gray+alpha": ["g", "a"], "rgb": ["r", "g", "b"], "rgb+alpha": ["r", "g", "b", "a"], "palette": ["index"]}[kind]
    if kind == "palette" and ("expand" in tr or "palette" in tr):
        c = ["r", "g", "b"]
    if trns and "a" not in c and c != ["index"] and ("expand" in tr or kind == "palette" and "palette" in tr):
        c = c + ["a"]
    if "strip_alpha" in tr and c[-1] == "a":
        c = c[:-1]
    if "to_gray" in tr and "r" in c:
        c = ["lum"] + c[3:]
    if "to_rgb" in tr and len(c) < 3 and c[0] in ("g", "lum"):
        c = [c[0]] * 3 + c[1:]
    if "filler" in tr and c[-1] != "a" and c != ["index"]:
        c = c + [tr["filler"]]
    return c


def png_handlers(cfg):
    """cfg: kind, trns, depth, w, h, jmp, and which creations fail"""
    def ev(name, ret=None):
        def h(p, i, st, a):
            st.events.append(("png", name, tuple(a), where(p)))
            return ret(p) if ret else None
        return h

    def create(name, base):
        def h(p, i, st, a):
            if cfg.get("fail") == name:
                return Ptr("null", p.K(0))
            st.events.append(("png", "create_" + name, (), where(p)))
            p.exists.add(base)
            return Ptr(base, p.K(0))
        return h

    def ihdr(p, i, st, a):
        st.events.append(("png", "IHDR", (), where(p)))
        for k, v, n in ((2, cfg["w"], 4), (3, cfg["h"], 4), (4, cfg["depth"], 4), (5, CT[cfg["kind"]], 4), (6, 0, 4), (7, 0, 4), (8, 0, 4)):
            if isinstance(a[k], Ptr) and a[k].base != "null":
                guard(p, st, a[k], n, "write")
                st.mem[a[k].base] = Entry("store", a[k].off, n, p.K(v), st.mem.get(a[k].base))
        return p.K(1)

    def trans(st):
        tr = {}
        for e in st.events:
            if e[0] != "png":
                continue
            n, a = e[1], e[2]
            if n in ("set_expand",):
                tr["expand"] = 1
            elif n in ("set_expand_gray_1_2_4_to_8",):
                tr["expand8"] = 1
            elif n == "set_palette_to_rgb":
                tr["palette"] = tr["expand"] = 1
            elif n == "set_tRNS_to_alpha":
                tr["expand"] = 1
            elif n == "set_strip_alpha":
                tr["strip_alpha"] = 1
            elif n in ("set_rgb_to_gray_fixed", "set_rgb_to_gray"):
                tr["to_gray"] = 1
            elif n == "set_gray_to_rgb":
                tr["to_rgb"] = 1
            elif n in ("set_add_alpha", "set_filler"):
                tr["filler"] = int(a[1].cval())
                if a[2].cval() != 1:
                    tr["before"] = 1
            elif n in ("set_strip_16", "set_scale_16"):
                tr["strip16"] = 1
            elif n == "set_packing":
                tr["packing"] = 1
        return tr

    def read_image(p, i, st, a):
        tr = trans(st)
        c = channels(cfg["kind"], cfg.get("trns"), tr)
        if tr.get("before"):
            raise Unsupported("filler before the pixel")
        bytes_ = 2 if cfg["depth"] == 16 and "strip16" not in tr else 1
        if cfg["depth"] < 8 and "packing" not in tr and "expand" not in tr and "expand8" not in tr:
            raise Unsupported("packed pixels")
        scale = "" if cfg["depth"] >= 8 or cfg["kind"] == "palette" or "expand" in tr or "expand8" in tr else "raw"
        st.events.append(("png", "read", (), where(p)))
        for y in range(cfg["h"]):
            q = p._load(st, st.mem.get(a[1].base), a[1].base, a[1].off + 8 * y, 8, "ptr")
            if not isinstance(q, Ptr):
                raise Unsupported("row %s" % q)
            n = cfg["w"] * len(c) * bytes_
            guard(p, st, q, n, "write")
            for x in range(cfg["w"]):
                for k, ch in enumerate(c):
                    v = p.K(ch) if isinstance(ch, int) else p.V("%s%s%d.%d" % (scale, ch, x, y))
                    for b in range(bytes_):
                        st.mem[q.base] = Entry("store", q.off + (x * len(c) + k) * bytes_ + b, 1, v, st.mem.get(q.base))
        return None

    def read_row(p, i, st, a):
        raise Unsupported("row by row reading")

    def write_image(p, i, st, a):
        hd = [e for e in st.events if e[0] == "png" and e[1] == "set_IHDR"]
        if not hd:
            return None
        w, h, dep, col = (int(x.cval()) for x in hd[-1][2][2:6])
        n = {0: 1, 2: 3, 4: 2, 6: 4}.get(col, 0) * w
        rows = []
        for y in range(h):
            q = p._load(st, st.mem.get(a[1].base), a[1].base, a[1].off + 8 * y, 8, "ptr")
            guard(p, st, q, n, "read")
            rows.append([p._load(st, st.mem.get(q.base), q.base, q.off + k, 1, "i8") for k in range(n)])
        st.events.append(("png", "rows", rows, where(p)))

    H = {"png_create_read_struct": create("struct", "png"), "png_create_write_struct": create("struct", "png"), "png_create_info_struct": create("info", "info"),
         "png_set_longjmp_fn": ev("jmpbuf", lambda p: Ptr("jmpbuf", p.K(0))), "_setjmp": lambda p, i, st, a: p.K(cfg.get("jmp", 0)), "png_get_IHDR": ihdr, "png_read_image": read_image, "png_write_image": write_image, "png_read_row": read_row}
    H["setjmp"] = H["_setjmp"]
    for n in ("init_io", "read_info", "write_info", "read_end", "write_end", "destroy_read_struct", "destroy_write_struct", "set_IHDR", "set_expand", "set_palette_to_rgb", "set_strip_alpha", "set_rgb_to_gray_fixed", "set_gray_to_rgb", "set_add_alpha", "set_filler",
              "set_strip_16", "set_packing", "set_expand_gray_1_2_4_to_8", "set_tRNS_to_alpha", "set_rgb_to_gray", "set_scale_16", "set_compression_level", "read_update_info", "set_interlace_handling"):
        H["png_" + n] = ev(n, (lambda p: p.K(1)) if n == "set_interlace_handling" else None)
    return H


def ordered(s, lib, names, stream):
    """the library is set up for the file before it is used: each step comes before the next one"""
    ev = [(e[1], e[2]) for e in s.events if e[0] == lib]
    at = {}
    for k, (n, a) in enumerate(ev):
        at.setdefault(n, k)
    miss = [n for n in names if n not in at]
    s.ok(not miss, "every step of the library's protocol", "%s missing" % ", ".join(miss))
    bad = [(a, b) for a, b in zip(names, names[1:]) if a in at and b in at and at[a] > at[b]]
    s.ok(not bad, "order of the library's protocol", "%s" % ["%s after %s" % q for q in bad])
    f = [a for n, a in ev if n == stream]
    s.ok(all(isinstance(a[1], Ptr) and a[1].base.startswith("stream") for a in f), "the library works on the file", "works on %s" % [str(a[1]) for a in f])


def pngev(s, n):
    return [e for e in s.events if e[0] == "png" and e[1] == n]


def png_save(rep):
    rule = "PNG saving"

    @session
    def save(rep, rule, fn, w, h, ty, stride, cfg):
        what = "".join(" %s=%s" % kv for kv in cfg.items())
        s = Img(rep, rule, "%s %dx%d %s stride %d%s" % (fn, w, h, "gray" if ty == GRAY else "rgba", stride, what), png_handlers(cfg)).make(w, h, ty, stride)
        rs = int(s.field("row_stride").cval())
        x = fn.startswith("nx_image_x")
        name = s.text("f.png")
        kw = dict(fail=nth(s.st) + cfg["io"]) if "io" in cfg else {}
        if cfg and x:
            rep.check(s.fatal(fn, s.im, name, **kw), rule, s.inst, fn, "a failure to save is not reported")
            return
        s.call(fn, s.im, name, **kw)
        s.ctx.fail_at = None
        if cfg:
            s.ok(not isval(s.st.ret, s.K(0)), "is reported", "returns success")
        else:
            s.ok(x or isval(s.st.ret, s.K(0)), "succeeds", "returns %s" % s.st.ret)
            hd = pngev(s, "set_IHDR")
            g = [int(v.cval()) for v in hd[0][2][2:9]] if hd else None
            s.ok(g == [w, h, 8, 0 if ty == GRAY else 6, 0, 0, 0], "header", "is %s" % g)
            ordered(s, "png", ["create_struct", "create_info", "init_io", "set_IHDR", "write_info", "rows", "write_end", "destroy_write_struct"], "init_io")
            rows = pngev(s, "rows")
            n = w * (1 if ty == GRAY else 4)
            s.ok(len(rows) == 1 and all(b.same(s.V("p%d" % (y * rs + k))) for y, r in enumerate(rows[0][2]) for k, b in enumerate(r)) and all(len(r) == n for r in rows[0][2]), "pixels", "differ")
            s.ok(bool(pngev(s, "write_end")) and bool(pngev(s, "write_info")) and bool(pngev(s, "init_io")), "the file is complete", "not every part is written")
        s.ok(len(pngev(s, "destroy_write_struct")) == len(pngev(s, "create_struct")), "the writer is released", "%d created, %d released" % (len(pngev(s, "create_struct")), len(pngev(s, "destroy_write_struct"))))
        s.done()
    for fn in ("nx_image_save_png", "nx_image_xsave_png", "nx_image_save", "nx_image_xsave"):
        for q in SHAPES:
            save(rep, rule, fn, *q, {})
        for cfg in ({"fail": "struct"}, {"fail": "info"}, {"jmp": 1}, {"io": 0}, {"io": 1}):
            save(rep, rule, fn, 2, 2, RGBA, -1, cfg)


def png_load(rep):
    rule = "PNG loading"

    def expected(s, kind, trns, mode, x, y):
        """acceptable values of a pixel"""
        V = lambda n: s.V("%s%d.%d" % (n, x, y))
        gray = kind in ("gray", "gray+alpha")
        if mode == "gray" or mode == "as is" and gray:
            return [[V("g") if gray else V("lum")]]
        a = [s.K(255)]
        if gray:
            return [[V("g")] * 3 + [v] for v in ([V("a"), s.K(255)] if trns or kind == "gray+alpha" else a)]
        return [[V("r"), V("g"), V("b"), V("a") if trns or kind == "rgb+alpha" else s.K(255)]]

    @session
    def load(rep, rule, fn, kind, depth, trns, mode, w, h, was, cfg):
        what = "".join(" %s=%s" % kv for kv in cfg.items())
        full = dict(kind=kind, depth=depth, trns=trns, w=w, h=h, **cfg)
        s = Img(rep, rule, "%s %s %d bits%s %dx%d as %s%s%s" % (fn, kind, depth, " with transparency" if trns else "", w, h, mode, " into an image in use" if was else "", what), png_handlers(full)).make(*(was or ()))
        s.todo.append(lambda p, st: give(p, st, "stream", [0x89, 0x50, 0x4e, 0x47]))
        x_ = fn.startswith("nx_image_x")
        name = s.text("f.png")
        kw = dict(fail=nth(s.st) + cfg["io"]) if "io" in cfg else {}
        if cfg and x_:
            rep.check(s.fatal(fn, s.im, name, _m["M"][mode], **kw), rule, s.inst, fn, "a failure to load is not reported")
            return
        s.call(fn, s.im, name, _m["M"][mode], **kw)
        s.ctx.fail_at = None
        if cfg:
            s.ok(not isval(s.st.ret, s.K(0)), "is reported", "returns success")
        else:
            s.ok(x_ or isval(s.st.ret, s.K(0)), "succeeds", "returns %s" % s.st.ret)
            ordered(s, "png", ["create_struct", "create_info", "init_io", "read_info", "IHDR", "read", "destroy_read_struct"], "init_io")
            ty = outtype(mode, GRAY if kind in ("gray", "gray+alpha") else RGBA)
            if s.shape(w, h, ty):
                bad = None
                for y in range(h):
                    for x in range(w):
                        want = expected(s, kind, trns, mode, x, y)
                        got = [s.pix(x, y, c) for c in range(1 if ty == GRAY else 4)]
                        if not any(all(eqb(g, v) for g, v in zip(got, ws)) for ws in want):
                            bad = bad or "pixel %d,%d is %s, not %s" % (x, y, [str(g) for g in got], [v.show() for v in want[0]])
                s.ok(bad is None, "pixels", bad or "")
        s.ok(len(pngev(s, "destroy_read_struct")) == len(pngev(s, "create_struct")), "the reader is released", "%d created, %d released" % (len(pngev(s, "create_struct")), len(pngev(s, "destroy_read_struct"))))
        s.done()
    mod()
    K = [("gray", 8, 0), ("gray", 1, 0), ("gray", 16, 0), ("gray", 8, 1), ("gray+alpha", 8, 0), ("rgb", 8, 0), ("rgb", 8, 1), ("rgb", 16, 0), ("rgb+alpha", 8, 0), ("rgb+alpha", 16, 0), ("palette", 8, 0), ("palette", 4, 0), ("palette", 8, 1)]
    for fn in ("nx_image_load_png", "nx_image_xload_png", "nx_image_load", "nx_image_xload"):
        for k, (kind, depth, trns) in enumerate(K):
            for mode in _m["M"]:
                load(rep, rule, fn, kind, depth, trns, mode, *((2, 3, None) if k % 2 else (3, 2, (3, 2, RGBA, 16))), {})
        for cfg in ({"fail": "struct"}, {"fail": "info"}, {"jmp": 1}, {"io": 0}):
            load(rep, rule, fn, "rgb+alpha", 8, 0, "as is", 2, 2, None, cfg)


# ---------------------------------------------------------------- JPEG
JCS = {"gray": 1, "rgb": 2, "ycc": 3, "cmyk": 4, "ycck": 5}


def jumps(m, name, depth=0):
    """does a function end in longjmp?"""
    f = m.functions.get(name)
    return bool(f) and not f.decl and any(i.is_call() and (i.callee in ("longjmp", "_longjmp", "siglongjmp") or depth < 3 and i.callee and jumps(m, i.callee, depth + 1)) for b in f.blocks for i in b.ins)


def jpeg_handlers(cfg):
    D, C = "jpeg_decompress_struct", "jpeg_compress_struct"

    def ev(name, ret=None):
        def h(p, i, st, a):
            st.events.append(("jpeg", name, tuple(a), where(p)))
            return ret(p, st, a) if ret else None
        return h

    def std_error(p, i, st, a):
        set_field(p, st, a[0].base, "jpeg_error_mgr", "error_exit", Ptr("std_exit", p.K(0)))
        return a[0]

    def create(p, i, st, a):
        st.events.append(("jpeg", "create", (), where(p)))
        e = p._load(st, st.mem.get(a[0].base), a[0].base, a[0].off, 8, "ptr")
        ok = isinstance(e, Ptr)
        if ok:
            x = p._load(st, st.mem.get(e.base), e.base, e.off, 8, "ptr")
            ok = isinstance(x, Ptr) and x.base.startswith("@") and jumps(p.mod, x.base[1:])
        st.events.append(("jpeg", "handler", ok, where(p)))

    def header(p, i, st, a):
        b = a[0].base
        st.events.append(("jpeg", "header", (), where(p)))
        k = cfg["kind"]
        n = {"gray": 1, "cmyk": 4, "ycck": 4}.get(k, 3)
        out = {"gray": 1, "cmyk": 4, "ycck": 4}.get(k, 2)
        for f, v in (("image_width", cfg["w"]), ("image_height", cfg["h"]), ("num_components", n), ("jpeg_color_space", JCS[k]), ("out_color_space", out)):
            set_field(p, st, b, D, f, p.K(v))
        return p.K(1)

    def start(p, i, st, a):
        b = a[0].base
        out = int(get_field(p, st, b, D, "out_color_space").cval())
        k = cfg["kind"]
        if k in ("cmyk", "ycck") and out != 4 or k == "gray" and out not in (1, 2) or k in ("rgb", "ycc") and out not in (1, 2, 3):
            # the library has no such conversion: its error handler is called
            st.events.append(("jpeg", "error", (), where(p)))
            st.cons = None
            raise Jump()
        st.events.append(("jpeg", "start", (), where(p)))
        n = {1: 1, 4: 4}.get(out, 3)
        for f, v in (("output_width", cfg["w"]), ("output_height", cfg["h"]), ("output_components", n), ("out_color_components", n), ("output_scanline", 0)):
            set_field(p, st, b, D, f, p.K(v))
        return p.K(1)

    def read(p, i, st, a):
        b = a[0].base
        y = int(get_field(p, st, b, D, "output_scanline").cval())
        n = int(get_field(p, st, b, D, "output_components").cval())
        if not a[2].is_const():
            raise Unsupported("several rows at once")
        rows = 1 if y < cfg["h"] and a[2].cval() else 0   # the library may read any number of rows up to the limit: one at a time here
        if not rows:
            return p.K(0)
        q = p._load(st, st.mem.get(a[1].base), a[1].base, a[1].off, 8, "ptr")
        st.events.append(("jpeg", "read", (), where(p)))
        guard(p, st, q, n * cfg["w"], "write")
        out = int(get_field(p, st, b, D, "out_color_space").cval())
        names = {1: ["g" if cfg["kind"] == "gray" else "lum"], 2: ["g"] * 3 if cfg["kind"] == "gray" else ["r", "g", "b"], 3: ["Y", "U", "V"], 4: ["c", "m", "y", "k"]}[out]
        for x in range(cfg["w"]):
            for k in range(n):
                st.mem[q.base] = Entry("store", q.off + x * n + k, 1, p.V("%s%d.%d" % (names[k], x, y)), st.mem.get(q.base))
        set_field(p, st, b, D, "output_scanline", p.K(y + 1))
        return p.K(1)

    def startc(p, i, st, a):
        b = a[0].base
        st.events.append(("jpeg", "start", tuple(int(get_field(p, st, b, C, f).cval()) for f in ("image_width", "image_height", "input_components", "in_color_space")), where(p)))
        set_field(p, st, b, C, "next_scanline", p.K(0))

    def write(p, i, st, a):
        b = a[0].base
        y = int(get_field(p, st, b, C, "next_scanline").cval())
        n = int(get_field(p, st, b, C, "input_components").cval()) * int(get_field(p, st, b, C, "image_width").cval())
        if not a[2].is_const():
            raise Unsupported("several rows at once")
        rows = min(int(a[2].cval()), int(get_field(p, st, b, C, "image_height").cval()) - y)
        for r in range(rows):
            guard(p, st, Ptr(a[1].base, a[1].off + 8 * r), 8, "read")
            q = p._load(st, st.mem.get(a[1].base), a[1].base, a[1].off + 8 * r, 8, "ptr")
            guard(p, st, q, n, "read")
            st.events.append(("jpeg", "row", [p._load(st, st.mem.get(q.base), q.base, q.off + k, 1, "i8") for k in range(n)], where(p)))
        set_field(p, st, b, C, "next_scanline", p.K(y + rows))
        return p.K(rows)

    H = {"jpeg_std_error": std_error, "jpeg_CreateDecompress": create, "jpeg_CreateCompress": create, "jpeg_read_header": header, "jpeg_start_decompress": start, "jpeg_read_scanlines": read, "jpeg_start_compress": startc, "jpeg_write_scanlines": write,
         "_setjmp": lambda p, i, st, a: p.K(cfg.get("jmp", 0))}
    H["setjmp"] = H["_setjmp"]
    def defaults(p, i, st, a):
        st.events.append(("jpeg", "set_defaults", tuple(a), where(p)))
        try:
            c = int(get_field(p, st, a[0].base, C, "in_color_space").cval())
        except Exception:
            c = None
        st.events.append(("jpeg", "colours", c, where(p)))
    H["jpeg_set_defaults"] = defaults
    for n in ("stdio_src", "stdio_dest", "finish_decompress", "finish_compress", "destroy_decompress", "destroy_compress", "set_quality"):
        H["jpeg_" + n] = ev(n, (lambda p, st, a: p.K(1)) if n.startswith("finish") else None)
    return H


class Jump(Exception):
    pass


def jev(s, n):
    return [e for e in s.events if e[0] == "jpeg" and e[1] == n]


def jpeg_save(rep):
    rule = "JPEG saving"

    @session
    def save(rep, rule, fn, w, h, ty, stride, cfg):
        what = "".join(" %s=%s" % kv for kv in cfg.items())
        s = Img(rep, rule, "%s %dx%d %s stride %d%s" % (fn, w, h, "gray" if ty == GRAY else "rgba", stride, what), jpeg_handlers(cfg)).make(w, h, ty, stride)
        rs = int(s.field("row_stride").cval())
        x = fn.startswith("nx_image_x")
        name = s.text("f.jpg")
        kw = dict(fail=nth(s.st) + cfg["io"]) if "io" in cfg else {}
        if cfg and x:
            rep.check(s.fatal(fn, s.im, name, **kw), rule, s.inst, fn, "a failure to save is not reported")
            return
        s.call(fn, s.im, name, **kw)
        s.ctx.fail_at = None
        if cfg:
            s.ok(not isval(s.st.ret, s.K(0)), "is reported", "returns success")
        else:
            s.ok(x or isval(s.st.ret, s.K(0)), "succeeds", "returns %s" % s.st.ret)
            n = 1 if ty == GRAY else 3
            st = jev(s, "start")
            s.ok(len(st) == 1 and st[0][2] == (w, h, n, 1 if ty == GRAY else 2), "header", "is %s" % [e[2] for e in st])
            rows = [e[2] for e in jev(s, "row")]
            want = [["p%d" % (y * rs + (k if ty == GRAY else 4 * (k // 3) + k % 3)) for k in range(n * w)] for y in range(h)]
            s.ok(len(rows) == h and all(len(r) == len(q) and all(b.same(s.V(v)) for b, v in zip(r, q)) for r, q in zip(rows, want)), "pixels", "rows are %s" % [[b.show() for b in r] for r in rows][:2])
            ordered(s, "jpeg", ["create", "stdio_dest", "set_defaults", "start", "row", "finish_compress", "destroy_compress"], "stdio_dest")
            cs = [e[2] for e in jev(s, "colours")]
            s.ok(all(c == (1 if ty == GRAY else 2) for c in cs), "the defaults are set for the colours of the image", "set for colour space %s" % cs)
            s.ok(len(jev(s, "finish_compress")) == 1, "the file is complete", "not finished")
            s.ok(all(e[2] for e in jev(s, "handler")), "library errors are caught", "an error in the library ends the program")
        s.ok(len(jev(s, "destroy_compress")) >= len(jev(s, "create")), "the writer is released", "%d created, %d released" % (len(jev(s, "create")), len(jev(s, "destroy_compress"))))
        s.done()
    for fn in ("nx_image_save_jpeg", "nx_image_xsave_jpeg", "nx_image_save", "nx_image_xsave"):
        for q in SHAPES:
            save(rep, rule, fn, *q, {})
        for cfg in ({"jmp": 1}, {"io": 0}, {"io": 1}):
            save(rep, rule, fn, 2, 2, RGBA, -1, cfg)


def jpeg_load(rep):
    rule = "JPEG loading"

    @session
    def load(rep, rule, fn, kind, mode, w, h, was, cfg):
        what = "".join(" %s=%s" % kv for kv in cfg.items())
        full = dict(kind=kind, w=w, h=h, **cfg)
        s = Img(rep, rule, "%s %s %dx%d as %s%s%s" % (fn, kind, w, h, mode, " into an image in use" if was else "", what), jpeg_handlers(full)).make(*(was or ()))
        s.todo.append(lambda p, st: give(p, st, "stream", [0xff, 0xd8, 0xff, 0xe0]))
        x_ = fn.startswith("nx_image_x")
        name = s.text("f.jpg")
        kw = dict(fail=nth(s.st) + cfg["io"]) if "io" in cfg else {}
        if cfg and x_:
            rep.check(s.fatal(fn, s.im, name, _m["M"][mode], **kw), rule, s.inst, fn, "a failure to load is not reported")
            return
        try:
            s.call(fn, s.im, name, _m["M"][mode], **kw)
        except Jump:
            # handed to the error handler, whose path is an instance of its own
            rep.check(True, rule, s.inst + ": refused by the library", fn, "")
            return
        s.ctx.fail_at = None
        if cfg:
            s.ok(not isval(s.st.ret, s.K(0)), "is reported", "returns success")
        else:
            s.ok(x_ or isval(s.st.ret, s.K(0)), "succeeds", "returns %s" % s.st.ret)
            ordered(s, "jpeg", ["create", "stdio_src", "header", "start", "read", "destroy_decompress"], "stdio_src")
            ty = outtype(mode, GRAY if kind == "gray" else RGBA)
            if s.shape(w, h, ty):
                bad = None
                for y in range(h):
                    for x in range(w):
                        V = lambda n: s.V("%s%d.%d" % (n, x, y))
                        want = [V("g" if kind == "gray" else "lum")] if ty == GRAY else ([V("g")] * 3 if kind == "gray" else [V("r"), V("g"), V("b")]) + [s.K(255)]
                        got = [s.pix(x, y, c) for c in range(len(want))]
                        if not all(eqb(g, v) for g, v in zip(got, want)):
                            bad = bad or "pixel %d,%d is %s, not %s" % (x, y, [str(g) for g in got], [v.show() for v in want])
                s.ok(bad is None, "pixels", bad or "")
            s.ok(all(e[2] for e in jev(s, "handler")), "library errors are caught", "an error in the library ends the program")
        s.ok(len(jev(s, "destroy_decompress")) >= len(jev(s, "create")), "the reader is released", "%d created, %d released" % (len(jev(s, "create")), len(jev(s, "destroy_decompress"))))
        s.done()
    mod()
    for fn in ("nx_image_load_jpeg", "nx_image_xload_jpeg", "nx_image_load", "nx_image_xload"):
        for k, kind in enumerate(("gray", "ycc", "rgb", "cmyk", "ycck")):
            for mode in _m["M"]:
                load(rep, rule, fn, kind, mode, *((2, 3, None) if k % 2 else (3, 2, (3, 2, RGBA, 16))), {})
        for cfg in ({"jmp": 1}, {"io": 0}):
            load(rep, rule, fn, "ycc", "as is", 2, 2, None, cfg)


def dispatch(rep):
    """the format of a file"""
    rule = "image file format"
    m = mod()
    e = m.enum("NXImageFileFormat")
    if not e:
        raise Unsupported("file formats")
    F = {k.replace("NX_IMAGE_FILE_FORMAT_", ""): v for k, v in e.items()}

    @session
    def name(rep, rule, n, want):
        s = Img(rep, rule, "name %r" % n)
        g = s.call("nx_image_file_format_from_filename", s.text(n))
        s.ok(isval(g, s.K(F[want])), "format", "is %s, not %s" % (g, want))

    @session
    def head(rep, rule, bs, want):
        s = Img(rep, rule, "first bytes %s" % bs)
        s.todo.append(lambda p, st: give(p, st, "stream", bs))
        g = s.call("nx_image_file_format_from_header", s.text("f"))
        s.ok(isval(g, s.K(F[want])), "format", "is %s, not %s" % (g, want))
        s.opened()
    for ext, want in (("pgm", "PNM_BINARY"), ("ppm", "PNM_BINARY"), ("jpg", "JPEG"), ("jpeg", "JPEG"), ("png", "PNG")):
        for n in ("a." + ext, "a." + ext.upper(), "x.png.y." + ext, "/d.jpg/a.b." + ext, "." + ext):
            name(rep, rule, n, want)
    for n in ("a", "a.", "", "png", "a.pngx", "a.pn", "a.png.txt", "a.pgm ", "jpg.a"):
        name(rep, rule, n, "UNKNOWN")
    tail = [10, 49]
    for k, w in ((49, "PNM_ASCII"), (50, "PNM_ASCII"), (51, "PNM_ASCII"), (52, "PNM_BINARY"), (53, "PNM_BINARY"), (54, "PNM_BINARY"), (55, "UNKNOWN"), (48, "UNKNOWN")):
        head(rep, rule, [80, k] + tail, w)
    for bs, w in (([0xff, 0xd8, 0xff, 0xe0], "JPEG"), ([0xff, 0xd8, 0xff, 0xdb], "JPEG"), ([0xff, 0xd9, 0xff, 0xe0], "UNKNOWN"), ([0x89, 0x50, 0x4e, 0x47, 13], "PNG"), ([0x89, 0x50, 0x4e, 0x48], "UNKNOWN"), ([0x89, 0x50, 0x4f, 0x47], "UNKNOWN"), ([0x88, 0x50, 0x4e, 0x47], "UNKNOWN"),
                  ([112, 53, 10, 49], "UNKNOWN"), ([80, 53, 10], "UNKNOWN"), ([], "UNKNOWN"), ([0x89, 0x50, 0x4e], "UNKNOWN")):
        head(rep, rule, bs, w)
