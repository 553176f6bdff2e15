"""Drawing and plotting: each call hands cairo or gnuplot exactly the shape, colour, text or command it stands for; resources are released once."""
from vlib.heap import *
from vlib.pix import set_field
from checks.p15 import isval
import math

LEVEL = "bounded"
GC = ["new", "new_pdf", "new_svg", "free", "clear", "new_path", "stroke", "fill", "flush", "set_color", "set_line_width", "set_line_dash", "move_to", "line_to", "rel_move_to", "rel_line_to",
      "line", "rectangle", "arc", "circle", "curve_to", "rel_curve_to", "curve", "draw_text", "set_text_size"]
GP = ["new", "free", "send_command", "send_data_frame", "flush", "set_terminal_window", "set_terminal_svg", "set_terminal_pdf", "set_terminal_eps", "set_terminal_ascii", "set_terminal",
      "set_title", "set_xlabel", "set_ylabel", "set_title_and_labels"]
# cairo calls that return nothing: name -> kinds of the arguments after the context (d number, s text, i integer, p pointer)
CAIRO = {"cairo_paint": "", "cairo_new_path": "", "cairo_stroke": "", "cairo_fill": "", "cairo_set_source_rgba": "dddd", "cairo_set_source_rgb": "ddd", "cairo_set_line_width": "d", "cairo_set_dash": "pid",
         "cairo_move_to": "dd", "cairo_line_to": "dd", "cairo_rel_move_to": "dd", "cairo_rel_line_to": "dd", "cairo_rectangle": "dddd", "cairo_arc": "ddddd", "cairo_arc_negative": "ddddd",
         "cairo_curve_to": "dddddd", "cairo_rel_curve_to": "dddddd", "cairo_set_font_size": "d", "cairo_show_text": "s", "cairo_new_sub_path": "", "cairo_close_path": "", "cairo_select_font_face": "sii",
         "cairo_set_antialias": "i", "cairo_stroke_preserve": "", "cairo_fill_preserve": "", "cairo_text_path": "s", "cairo_paint_with_alpha": "d", "cairo_clip": "", "cairo_save": "", "cairo_restore": "",
         "cairo_translate": "dd", "cairo_scale": "dd", "cairo_rotate": "d", "cairo_show_page": "", "cairo_set_operator": "i", "cairo_set_fill_rule": "i", "cairo_set_line_cap": "i", "cairo_set_line_join": "i"}


def run(rep):
    for part in (surfaces, shapes, text, plots, frames):
        try:
            part(rep)
        except Unsupported as e:
            rep.undecide(part.__name__, e)
    for r, n in (("graphics context", 20), ("shape", 60), ("gnuplot", 40), ("gnuplot data", 5)):
        rep.need(r, n)


_m = {}


def mod():
    if "m" not in _m:
        _m["m"] = kernels([("nx_gc_" + f,) * 2 + (None,) for f in GC] + [("nx_gnuplot_" + f,) * 2 + (None,) for f in GP] +
                          [("nx_data_frame_" + f,) * 2 + (None,) for f in ("alloc", "free", "add_column", "add_row", "set_int", "set_string", "set_double")], name="p22")
    return _m["m"]


class Draw(Session):
    inits = True

    def __init__(self, rep, rule, inst, nosurface=False, noctx=False, nopipe=False):
        self.nosurface, self.noctx, self.nopipe = nosurface, noctx, nopipe
        ops = {n: self._call(n, k) for n, k in CAIRO.items()}
        ops.update({"cairo_image_surface_create_for_data": self._surface("image"), "cairo_pdf_surface_create": self._surface("pdf"), "cairo_svg_surface_create": self._surface("svg"),
                    "cairo_create": self._create, "cairo_surface_destroy": self._drop, "cairo_destroy": self._drop, "cairo_surface_flush": self._flush, "cairo_surface_finish": self._flush,
                    "cairo_text_extents": self._extents, "cairo_surface_reference": self._ref, "cairo_reference": self._ref,
                    "popen": self._popen, "pclose": self._pclose, "fflush": self._fflush})
        super().__init__(rep, rule, mod(), inst, opaque=ops)

    def run(self, fn, args, **kw):
        self.todo.append(lambda p, st: p.exists.update(["userstream"] + [e[1] for e in st.events if e[0] in ("surface", "ctx", "pipe")]))
        return super().run(fn, args, **kw)

    def _live(self, p, st, q, kind):
        if not isinstance(q, Ptr) or not q.base.startswith(kind):
            raise Unsupported("%s expected, got %s" % (kind, q))
        n = 1 + sum(1 if e[0] == "ref" else -1 for e in st.events if e[0] in ("ref", "drop") and e[1] == q.base)
        # a context keeps its surface
        n += sum(1 for e in st.events if e[0] == "ctx" and e[2] == q.base and not any(x[0] == "drop" and x[1] == e[1] for x in st.events))
        if n <= 0:
            st.events.append(("stale", q.base))
        return q.base

    def _call(self, name, kinds):
        def f(p, i, st, a):
            c = self._live(p, st, a[0], "cairo context")
            args = []
            for k, v in zip(kinds, a[1:]):
                args.append(tuple(x.show() for x in cstr(p, st, v)) if k == "s" else v)
            if name == "cairo_set_source_rgb":
                st.events.append(("draw", "cairo_set_source_rgba", c, args + [p.K(1)]))
            else:
                st.events.append(("draw", name, c, args))
            return None
        return f

    def _surface(self, kind):
        def f(p, i, st, a):
            if self.nosurface:
                return Ptr("null", p.K(0))
            s = "cairo surface%d" % sum(1 for e in st.events if e[0] == "surface")
            st.events.append(("surface", s, kind, [tuple(x.show() for x in cstr(p, st, a[0]))] + a[1:] if kind != "image" else a))
            p.exists.add(s)
            return Ptr(s, p.K(0))
        return f

    def _create(self, p, i, st, a):
        if self.noctx:
            return Ptr("null", p.K(0))
        s = self._live(p, st, a[0], "cairo surface")
        c = "cairo context%d" % sum(1 for e in st.events if e[0] == "ctx")
        st.events.append(("ctx", c, s))
        p.exists.add(c)
        return Ptr(c, p.K(0))

    def _drop(self, p, i, st, a):
        if isinstance(a[0], Ptr) and a[0].base == "null":
            return None
        self._live(p, st, a[0], "cairo ")
        st.events.append(("drop", a[0].base))
        return None

    def _ref(self, p, i, st, a):
        self._live(p, st, a[0], "cairo ")
        st.events.append(("ref", a[0].base))
        return a[0]

    def _flush(self, p, i, st, a):
        st.events.append(("flush", self._live(p, st, a[0], "cairo surface")))
        return None

    def _extents(self, p, i, st, a):
        c = self._live(p, st, a[0], "cairo context")
        size = [e[3][0].show() for e in st.events if e[0] == "draw" and e[1] == "cairo_set_font_size"]
        t = ",".join(x.show() for x in cstr(p, st, a[1]))
        for k, n in enumerate(("x_bearing", "y_bearing", "width", "height", "x_advance", "y_advance")):
            st.mem[a[2].base] = Entry("store", a[2].off + 8 * k, 8, p.V("%s(%s|%s)" % (n, t, size[-1] if size else "?")), st.mem.get(a[2].base))
        st.events.append(("draw", "extents", c, []))
        return None

    def _popen(self, p, i, st, a):
        if self.nopipe:
            return Ptr("null", p.K(0))
        s = "pipe%d" % sum(1 for e in st.events if e[0] == "pipe")
        st.events.append(("pipe", s, gtext(p, a[0]), gtext(p, a[1])))
        p.exists.add(s)
        return Ptr(s, p.K(0))

    def _pclose(self, p, i, st, a):
        st.events.append(("pclose", sname(a[0])))
        return p.K(0)

    def _fflush(self, p, i, st, a):
        st.events.append(("fflush", sname(a[0])))
        return p.K(0)

    def fork(self):
        s = Draw(self.rep, self.rule, self.inst, self.nosurface, self.noctx, self.nopipe)
        o = super().fork()
        for a in ("ctx", "mem", "cons", "events", "todo", "roots", "k", "faulty"):
            setattr(s, a, getattr(o, a))
        return s

    def gc(self, kind, w=None, h=None):
        if kind == "image":
            im = self.buf(64, "heapimage")
            px = self.buf(4000, "heappixels")
            e = mod().enum
            self.wh = (self.K(20), self.K(30), self.K(100))

            def init(p, st):
                for f, v in (("type", self.K(e("NXImageType")["NX_IMAGE_RGBA"])), ("dtype", self.K(e("NXImageDataType")["NX_IMAGE_UCHAR"])), ("width", self.wh[0]), ("height", self.wh[1]), ("row_stride", self.wh[2]), ("data", px)):
                    set_field(p, st, "heapimage", "NXImage", f, v)
            self.todo.append(init)
            self.wh += (px,)
            q = self.call("nx_gc_new", im)
        else:
            self.wh = (self.V("w"), self.V("h"))
            q = self.call("nx_gc_new_" + kind, self.text("out.x", "heapname"), *self.wh)
        self.roots.append(q.base)
        return q

    def drawn(self, k):
        return [(e[1], e[3]) for e in self.events[k:] if e[0] == "draw"]


def session(f):
    def g(rep, rule, *a):
        try:
            f(rep, rule, *a)
        except Fatal as e:
            rep.check(False, rule, "%s" % (a,), str(e), "a legal call ends in a fatal error")
        except Unsupported as e:
            rep.undecide("%s %s" % (f.__name__, str(a)[:200]), e)
    return g


def surfaces(rep):
    rule = "graphics context"

    @session
    def life(rep, rule, kind):
        s = Draw(rep, rule, kind + " context")
        q = s.gc(kind)
        sf = [e for e in s.events if e[0] == "surface"]
        s.ok(len(sf) == 1 and sf[0][2] == kind, "one surface of its kind", "creates %s" % [e[2] for e in sf])
        a = sf[0][3]
        if kind == "image":
            s.ok(isinstance(a[0], Ptr) and a[0].base == s.wh[3].base and isval(a[0].off, s.K(0)), "draws on the image's pixels", "on %s" % (a[0],))
            s.ok(isval(a[1], s.K(0)), "32-bit pixels with alpha", "format %s" % a[1])
            s.ok(all(isval(x, w) for x, w in zip(a[2:5], s.wh)), "width, height, stride", "are %s" % a[2:5])
        else:
            s.ok(a[0] == tuple(s.K(b).show() for b in b"out.x"), "file name", "is %s" % (a[0],))
            s.ok(all(isval(x, w) for x, w in zip(a[1:3], s.wh)), "width and height", "are %s" % a[1:3])
        cx = [e for e in s.events if e[0] == "ctx"]
        s.ok(len(cx) == 1 and cx[0][2] == sf[0][1], "one context on the surface", "has %s" % cx)
        col = [d for d in s.drawn(0) if d[0] == "cairo_set_source_rgba"]
        s.ok(col and all(isval(x, s.K(w)) for x, w in zip(col[-1][1], (0, 0, 0, 1))), "starts with opaque black", "starts with %s" % (col,))
        k = len(s.events)
        s.call("nx_gc_flush", q)
        s.ok([e[1] for e in s.events[k:] if e[0] == "flush"] == [sf[0][1]], "flush reaches the surface", "does not")
        k = len(s.events)
        s.roots.remove(q.base)
        s.call("nx_gc_free", q)
        for x in (sf[0][1], cx[0][1]):
            n = sum(-1 if e[0] == "ref" else 1 for e in s.events if e[0] in ("ref", "drop") and e[1] == x)
            s.ok(n == 1, "%s released once" % x.rstrip("0123456789"), "released %d times" % n)
        s.ok(not any(e[0] == "stale" for e in s.events), "nothing is used after its release", "a released object is used")
        ev = s.events[k:]
        fl = [j for j, e in enumerate(ev) if e[0] == "flush"]
        dr = [j for j, e in enumerate(ev) if e[0] == "drop" and e[1] == sf[0][1]]
        s.ok(fl and dr and fl[0] < dr[0], "flushed before it goes", "order %s" % [e[0] for e in ev])
        s.end()
    for k in ("image", "pdf", "svg"):
        life(rep, rule, k)

    @session
    def fails(rep, rule, kind, what):
        s = Draw(rep, rule, "%s without %s" % (kind, what), nosurface=what == "surface", noctx=what == "context")
        try:
            s.gc(kind)
            bad = True
        except Fatal:
            bad = False
        rep.check(not bad, rule, s.inst + ": stops", "nx_gc_new", "a missing %s goes unnoticed" % what)
    for k in ("image", "pdf", "svg"):
        for w in ("surface", "context"):
            fails(rep, rule, k, w)
    s = Draw(rep, rule, "no context")
    s.call("nx_gc_free", None)
    s.end()


def shapes(rep):
    rule = "shape"
    C = "cairo_"

    def cases(s):
        V = s.V
        a = [V("a%d" % k) for k in range(8)]
        two_pi = s.K(0)
        yield "clear", [], [("paint", [])]
        yield "new_path", [], [("new_path", [])]
        yield "stroke", [], [("stroke", [])]
        yield "fill", [], [("fill", [])]
        yield "set_line_width", a[:1], [("set_line_width", a[:1])]
        yield "move_to", a[:2], [("move_to", a[:2])]
        yield "line_to", a[:2], [("line_to", a[:2])]
        yield "rel_move_to", a[:2], [("rel_move_to", a[:2])]
        yield "rel_line_to", a[:2], [("rel_line_to", a[:2])]
        yield "line", a[:4], [("move_to", a[:2]), ("line_to", a[2:4])]
        yield "rectangle", a[:4], [("rectangle", a[:4])]
        yield "arc", a[:5], [("arc", a[:5])]
        yield "curve_to", a[:6], [("curve_to", a[2:6] + a[:2])]
        yield "rel_curve_to", a[:6], [("rel_curve_to", a[2:6] + a[:2])]
        yield "curve", a[:8], [("move_to", a[:2]), ("curve_to", a[4:8] + a[2:4])]

    @session
    def shape(rep, rule, kind, n):
        s = Draw(rep, rule, "%s context" % kind)
        q = s.gc(kind)
        name, args, want = list(cases(s))[n]
        s.inst += ": " + name
        k = len(s.events)
        s.call("nx_gc_" + name, q, *args)
        got = s.drawn(k)
        s.ok([g[0] for g in got] == [C + w[0] for w in want], "what is drawn", "%s, not %s" % ([g[0] for g in got], [C + w[0] for w in want]))
        if [g[0] for g in got] == [C + w[0] for w in want]:
            for g, w in zip(got, want):
                s.ok(all(isinstance(x, R) and isval(x, y) for x, y in zip(g[1], w[1])), g[0] + " arguments", "are %s, not %s" % ([x.show() for x in g[1]], [y.show() for y in w[1]]))
        s.ok(not any(e[0] in ("stale", "drop") for e in s.events), "nothing is released", "an object is released")
        s.end()
    for kind in ("image", "pdf", "svg"):
        for n in range(15):
            shape(rep, rule, kind, n)

    @session
    def others(rep, rule, kind):
        s = Draw(rep, rule, "%s context" % kind)
        q = s.gc(kind)
        a = [s.V("a%d" % k) for k in range(4)]
        k = len(s.events)
        s.call("nx_gc_set_color", q, *a)
        got = s.drawn(k)
        want = [a[2], a[1], a[0], a[3]] if kind == "image" else a      # an image's pixels are R, G, B, A in memory, cairo's B, G, R, A
        s.ok(len(got) == 1 and got[0][0] == C + "set_source_rgba" and all(isval(x, y) for x, y in zip(got[0][1], want)), "colour channels", "are %s" % [(g[0], [x.show() for x in g[1]]) for g in got])
        k = len(s.events)
        s.call("nx_gc_circle", q, *a[:3])
        got = s.drawn(k)
        if len(got) != 1 or got[0][0] not in (C + "arc", C + "arc_negative"):
            s.ok(False, "circle", "draws %s" % [g[0] for g in got])
        else:
            v = got[0][1]
            s.ok(all(isval(x, y) for x, y in zip(v[:3], a[:3])), "circle centre and radius", "are %s" % [x.show() for x in v[:3]])
            d = v[4] - v[3] if got[0][0] == C + "arc" else v[3] - v[4]
            s.ok(d.is_const() and abs(float(d.cval()) - 2 * math.pi) < 1e-6, "circle is closed", "spans %s" % d.show())
        ds = s.buf(24, "heapdashes")
        for n in (0, 1, 2, 3):
            k = len(s.events)
            s.call("nx_gc_set_line_dash", q, n, ds, a[0])
            got = s.drawn(k)
            s.ok(len(got) == 1 and got[0][0] == C + "set_dash" and isinstance(got[0][1][0], Ptr) and got[0][1][0].base == "heapdashes" and isval(got[0][1][1], s.K(n)) and isval(got[0][1][2], a[0]), "%d dashes" % n, "are %s" % (got,))
        s.end()
    for kind in ("image", "pdf", "svg"):
        others(rep, rule, kind)


def text(rep):
    rule = "shape"

    @session
    def go(rep, rule, kind, n):
        s = Draw(rep, rule, "%s context, text of %d characters" % (kind, n))
        q = s.gc(kind)
        ch = [s.V("t%d" % k) for k in range(n)]
        t = s.text(["t%d" % k for k in range(n)], "heaptext")
        x, y, z = (s.V(k) for k in "xyz")
        k = len(s.events)
        s.call("nx_gc_draw_text", q, x, y, t, z)
        got = s.drawn(k)
        names = [g[0] for g in got]
        s.ok(names.count("cairo_show_text") == 1 and names[-1] == "cairo_show_text" and got[-1][1][0] == tuple(v.show() for v in ch), "text shown", "is %s" % (got,))
        s.ok(sorted(names[:-1]) == ["cairo_move_to", "cairo_set_font_size"] and all(all(isval(v, w) for v, w in zip(g[1], (x, y) if g[0] == "cairo_move_to" else (z,))) for g in got[:-1]), "place and size of the text", "are %s" % (got[:-1],))
        o = s.buf(16, "heapout")
        k = len(s.events)
        s.call("nx_gc_set_text_size", q, t, z, Ptr("heapout", s.K(0)), Ptr("heapout", s.K(8)))
        for j, f in enumerate(("width", "height")):
            g = s.load(o, 8 * j, 8, "double")
            w = "%s(%s|%s)" % (f, ",".join(v.show() for v in ch), z.show())
            s.ok(isinstance(g, R) and isval(g, s.V(w)), "text " + f, "is %s" % g)
        s.end()
    for kind in ("image", "svg"):
        for n in (0, 1, 3):
            go(rep, rule, kind, n)


# ---------------------------------------------------------------- gnuplot
def tokens(s, ch):
    """written characters; a printed number is its value"""
    out = []
    for c in ch:
        t = s.ctx.__dict__.get("numbers", {}).get(c.show())
        if t:
            if t[0].rstrip("diufFgGeE") not in ("%", "%l", "%.17", "%.16"):
                raise Unsupported("number written as %s" % t[0])
            out.append("<%s>" % t[1].show())
        else:
            out.append(chr(int(c.cval()) % 256) if c.is_const() else "<%s>" % c.show())
    return out


def commands(s, stream, k=0):
    import re
    t = "".join(tokens(s, written(s, stream, k)))
    return [re.sub(r"\s+", " ", c).strip() for c in re.split(r"[;\n]", t) if c.strip()], t


def written(s, stream, k):
    from vlib.heap import tbase, tape
    st = s.st
    w, _ = tape(st, stream)
    return [s.c.p._load(st, st.mem.get(tbase(stream)), tbase(stream), s.K(j), 1, "i8") for j in range(k, w)]


def plots(rep):
    rule = "gnuplot"

    def size(s, stream):
        from vlib.heap import tape
        return tape(s.st, stream)[0]

    @session
    def life(rep, rule, given, persist):
        s = Draw(rep, rule, "plot on %s%s" % ("a stream" if given else "a pipe", " that stays" if persist else ""))
        q = s.call("nx_gnuplot_new", Ptr("userstream", s.K(0)) if given else None, int(persist))
        s.roots.append(q.base)
        pipes = [e for e in s.events if e[0] == "pipe"]
        if given:
            s.ok(not pipes, "no pipe is opened", "opens %s" % pipes)
            st = "userstream"
        else:
            s.ok(len(pipes) == 1 and pipes[0][2].split() == ["gnuplot"] + ["-persist"] * persist and pipes[0][3] == "w", "one pipe to gnuplot", "opens %s" % pipes)
            st = pipes[0][1]
        k = size(s, st)
        s.call("nx_gnuplot_set_title", q, s.text(["t0", "t1"], "heaptitle"))
        c, raw = commands(s, st, k)
        s.ok(c == ['set title "<t0><t1>"'] and raw.endswith("\n"), "commands reach gnuplot", "are %s" % c)
        k = len(s.events)
        s.call("nx_gnuplot_flush", q)
        s.ok([e[1] for e in s.events[k:] if e[0] == "fflush"] == [st], "flush", "does not reach the stream")
        k = len(s.events)
        s.roots.remove(q.base)
        s.call("nx_gnuplot_free", q)
        ev = [e for e in s.events if e[0] in ("pclose", "closed")]
        s.ok([e[:2] for e in ev] == ([] if given else [("pclose", st)]), "the pipe is closed once, a caller's stream never", "closes %s" % ev)
        s.end()
    for g in (0, 1):
        for p in (0, 1):
            life(rep, rule, g, p)
    s = Draw(rep, rule, "no pipe", nopipe=True)
    rep.check(s.fatal("nx_gnuplot_new", None, 0), rule, "a pipe that cannot be opened stops", "nx_gnuplot_new", "a missing pipe goes unnoticed")
    s = Draw(rep, rule, "no plot")
    s.call("nx_gnuplot_free", None)
    s.end()

    T = mod().enum("NXTerminalType") or {}

    @session
    def cmd(rep, rule, name, args, want):
        s = Draw(rep, rule, name)
        q = s.call("nx_gnuplot_new", Ptr("userstream", s.K(0)), 0)
        s.roots.append(q.base)
        k = size(s, "userstream")
        a = []
        for n, x in enumerate(args):
            a.append(s.text([x + "0", x + "1"], "heaptext%d" % n) if isinstance(x, str) and x[0] == "s" else s.V(x) if isinstance(x, str) else x)
        s.call("nx_gnuplot_" + name, q, *a)
        c, raw = commands(s, "userstream", k)
        s.ok(c == want and raw.endswith("\n"), "%s" % (args,), "sends %s, not %s" % (c, want))
        s.roots.remove(q.base)
        s.call("nx_gnuplot_free", q)
        s.end()
    S = lambda x: '"<%s0><%s1>"' % (x, x)
    cmd(rep, rule, "set_title", ["st"], ["set title " + S("st")])
    cmd(rep, rule, "set_xlabel", ["st"], ["set xlabel " + S("st")])
    cmd(rep, rule, "set_ylabel", ["st"], ["set ylabel " + S("st")])
    cmd(rep, rule, "set_title_and_labels", ["st", "sx", "sy"], ["set title " + S("st"), "set xlabel " + S("sx"), "set ylabel " + S("sy")])
    cmd(rep, rule, "set_terminal_window", ["w", "h", "st", "i"], ["set terminal qt <i> size <w>,<h> enhanced title " + S("st"), "unset output"])
    cmd(rep, rule, "set_terminal_svg", ["w", "h", "st", "sf"], ["set terminal svg size <w>,<h> enhanced name " + S("st"), "set output " + S("sf")])
    cmd(rep, rule, "set_terminal_pdf", ["w", "h", "sf"], ["set terminal pdfcairo enhanced color size <w>cm,<h>cm", "set output " + S("sf")])
    cmd(rep, rule, "set_terminal_eps", ["w", "h", "sf"], ["set terminal epscairo enhanced color size <w>cm,<h>cm", "set output " + S("sf")])
    for f in (0, 1):
        cmd(rep, rule, "set_terminal_ascii", ["w", "h", f], ["set terminal dumb size <w>,<h> enhanced %sfeed" % ("" if f else "no")])
    for t, want in (("WINDOW", ["set terminal qt <i> size 640,480 enhanced title " + S("st"), "unset output"]), ("SVG", ['set terminal svg size 640,480 enhanced name "VIRG"', "set output " + S("st")]),
                    ("PDF", ["set terminal pdfcairo enhanced color size <640>cm,<480>cm", "set output " + S("st")]), ("EPS", ["set terminal epscairo enhanced color size <640>cm,<480>cm", "set output " + S("st")]),
                    ("ASCII", ["set terminal dumb size 640,480 enhanced feed"])):
        cmd(rep, rule, "set_terminal", [T["NX_TERMINAL_" + t], 640, 480, "st", "i"], want)

    @session
    def send(rep, rule, fmt, va, want):
        s = Draw(rep, rule, "command %r" % fmt)
        q = s.call("nx_gnuplot_new", Ptr("userstream", s.K(0)), 0)
        s.roots.append(q.base)
        k = size(s, "userstream")
        s.call("nx_gnuplot_send_command", q, s.text(fmt, "heapfmt"), va=[(s.V(x) if isinstance(x, str) else x, w) for x, w in va])
        t = "".join(tokens(s, written(s, "userstream", k)))
        s.ok(t == want, "what is sent", "is %r, not %r" % (t, want))
        s.roots.remove(q.base)
        s.call("nx_gnuplot_free", q)
        s.end()
    send(rep, rule, "plot sin(x)\n", [], "plot sin(x)\n")
    send(rep, rule, "a %d b %d;", [("i", 4), ("j", 4)], "a <i> b <j>;")
    send(rep, rule, "%lf%% %d", [("x", 8), (7, 4)], "<x>% 7")
    send(rep, rule, "", [], "")


def frames(rep):
    rule = "gnuplot data"
    T = mod().enum("NXDataColumnType")

    @session
    def go(rep, rule, label, rows):
        s = Draw(rep, rule, "frame of %d rows%s" % (rows, " named" if label else ""))
        df = s.call("nx_data_frame_alloc")
        s.roots.append(df.base)
        s.call("nx_data_frame_add_column", df, T["NX_DCT_INT"], s.text("ab", "heapl1"))
        s.call("nx_data_frame_add_column", df, T["NX_DCT_DOUBLE"], s.text("cd", "heapl2"))
        for r in range(rows):
            s.call("nx_data_frame_add_row", df)
            s.call("nx_data_frame_set_int", df, r, 0, s.V("i%d" % r))
            s.call("nx_data_frame_set_double", df, r, 1, s.V("d%d" % r))
        q = s.call("nx_gnuplot_new", Ptr("userstream", s.K(0)), 0)
        s.roots.append(q.base)
        from vlib.heap import tape
        k = tape(s.st, "userstream")[0]
        s.call("nx_gnuplot_send_data_frame", q, df, s.text(["n0", "n1"], "heaplabel") if label else None)
        t = "".join(tokens(s, written(s, "userstream", k)))
        want = ("$<n0><n1> << EOD\n" if label else "") + '"ab" "cd"\n' + "".join("<i%d> <d%d>\n" % (r, r) for r in range(rows)) + ("EOD\n" if label else "e\n")
        s.ok(t == want, "block of data", "is %r, not %r" % (t, want))
        s.roots.remove(q.base)
        s.call("nx_gnuplot_free", q)
        s.roots.remove(df.base)
        s.call("nx_data_frame_free", df)
        s.end()
    for lab in (0, 1):
        for r in (0, 1, 2):
            go(rep, rule, lab, r)
