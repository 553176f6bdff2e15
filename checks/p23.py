"""The C++ interface: every method acts on the object's own C object with the arguments given, C objects are shared and released exactly once, and what the classes compute themselves is right."""
from vlib.heap import *
from vlib import build
from vlib.pix import set_field, get_field, field_off
from checks.p15 import isval
import itertools

LEVEL = "bounded"
ROOM = 512   # bytes of a C object that only the library looks into

# the C functions behind the interface: kinds of the arguments (h object, d number, s text, p pointer, 3 three objects, * the rest as numbers or texts), what comes back
# (None, v a value, N a new object of the caller's, X the object is released)
IMG = {"nx_image_alloc": ("", "N"), "nx_image_free": ("h", "X"), "nx_image_resize": ("hddddd", None), "nx_image_copy": ("hh", None), "nx_image_release": ("h", None), "nx_image_wrap": ("hpdddddd", None),
       "nx_image_convert_type": ("hd", None), "nx_image_apply_colormap": ("hhd", None), "nx_image_set_zero": ("h", None), "nx_image_normalize_to_zero_one": ("hd", None), "nx_image_axpy": ("hdd", None),
       "nx_image_scale": ("hhd", None), "nx_image_downsample": ("hh", None), "nx_image_smooth": ("hhdddp", None), "nx_image_filter_box_x": ("hhdp", None), "nx_image_filter_box_y": ("hhdp", None),
       "nx_image_filter_box": ("hhddp", None), "nx_image_deriv_x": ("hh", None), "nx_image_deriv_y": ("hh", None), "nx_image_xsave": ("hs", None), "nx_image_save": ("hs", "v"), "nx_image_xload": ("hsd", None),
       "nx_image_load": ("hsd", "v")}
PYR = {"nx_image_pyr_alloc": ("", "N"), "nx_image_pyr_free": ("h", "X"), "nx_image_pyr_builder_alloc": ("", "N"), "nx_image_pyr_builder_free": ("h", "X"), "nx_image_pyr_builder_new_fast": ("dd", "N"),
       "nx_image_pyr_builder_new_fine": ("ddd", "N"), "nx_image_pyr_builder_new_scaled": ("ddd", "N"), "nx_image_pyr_builder_build0": ("hh", "N"), "nx_image_pyr_builder_update": ("hh", None),
       "nx_image_pyr_builder_build": ("hhh", None)}
OPT = {"nx_options_alloc": ("", "N"), "nx_options_free": ("h", "X"), "nx_options_add": ("hsss*", None), "nx_options_add_help": ("h", None), "nx_options_set_from_args": ("hdp", None), "nx_options_get_bool": ("hs", "v"),
       "nx_options_get_int": ("hs", "v"), "nx_options_get_double": ("hs", "v"), "nx_options_get_string": ("hs", "s"), "nx_options_get_rest": ("h", "r"), "nx_options_is_set": ("hs", "v"),
       "nx_options_print_values": ("hp", None), "nx_options_print_usage": ("hp", None), "nx_options_set_usage_header": ("hs", None), "nx_options_set_usage_footer": ("hs", None)}
GC = {"nx_gc_new": ("h", "N"), "nx_gc_new_pdf": ("sdd", "N"), "nx_gc_new_svg": ("sdd", "N"), "nx_gc_free": ("h", "X"), "nx_gc_clear": ("h", None), "nx_gc_new_path": ("h", None), "nx_gc_stroke": ("h", None),
      "nx_gc_fill": ("h", None), "nx_gc_flush": ("h", None), "nx_gc_set_color": ("hdddd", None), "nx_gc_set_line_width": ("hd", None), "nx_gc_set_line_dash": ("hdpd", None), "nx_gc_move_to": ("hdd", None),
      "nx_gc_line_to": ("hdd", None), "nx_gc_rel_move_to": ("hdd", None), "nx_gc_rel_line_to": ("hdd", None), "nx_gc_line": ("hdddd", None), "nx_gc_rectangle": ("hdddd", None), "nx_gc_arc": ("hddddd", None),
      "nx_gc_circle": ("hddd", None), "nx_gc_curve_to": ("hdddddd", None), "nx_gc_rel_curve_to": ("hdddddd", None), "nx_gc_curve": ("hdddddddd", None), "nx_gc_draw_text": ("hddsd", None),
      "nx_gc_set_text_size": ("hsdpp", None)}
GEO = {"nx_point_match_2d_stats_new": ("", "N"), "nx_point_match_2d_stats_free": ("h", "X"), "nx_point_match_2d_stats_reset": ("h", None), "nx_point_match_2d_stats_normalize_matches": ("hdp", None),
       "nx_point_match_2d_stats_denormalize_matches": ("hdp", None), "nx_point_match_2d_stats_denormalize_homography": ("hp", None), "nx_point_match_2d_stats_denormalize_fundamental": ("hp", None),
       "nx_homography_estimate_ransac": ("pdpdd", "v"), "nx_homography_estimate_dlt_inliers": ("pdp", None), "nx_homography_mark_inliers": ("pdpd", "v"), "nx_homography_transfer_error_fwd": ("pdp", "v"),
       "nx_homography_transfer_error_bwd": ("pdp", "v"), "nx_homography_transfer_error_sym": ("pdp", "v"), "nx_fundamental_estimate_ransac": ("pdpdd", "v"),
       "nx_fundamental_estimate_inliers": ("pdp", None), "nx_fundamental_mark_inliers": ("pdpd", "v")}
DES = {"nx_brief_extractor_new": ("dd", "N"), "nx_brief_extractor_free": ("h", "X"), "nx_brief_extractor_randomize_with_seed": ("hd", None), "nx_brief_extractor_randomize": ("h", None),
       "nx_brief_extractor_check_point_pyr": ("hhddd", "v"), "nx_brief_extractor_compute_pyr": ("hhdddp", None), "nx_brief_extractor_descriptor_distance": ("dpp", "v"),
       "nx_harris_deriv_images": ("3hd", None), "nx_harris_score_image": ("h3d", None), "nx_harris_detect_keypoints": ("dphd", "v"), "nx_color_map_apply": ("pppdd", None),
       "nx_uniform_sampler_instance": ("", "P"), "nx_uniform_sampler_sample_d": ("h", "v")}
API = {}
for t in (IMG, PYR, OPT, GC, GEO, DES):
    API.update(t)
LIFE = {n for n, (k, r) in API.items() if r in ("N", "X")} - {"nx_image_pyr_builder_build0", "nx_gc_new", "nx_gc_new_pdf", "nx_gc_new_svg", "nx_image_pyr_builder_new_fast", "nx_image_pyr_builder_new_fine",
                                                              "nx_image_pyr_builder_new_scaled", "nx_brief_extractor_new"}


def run(rep):
    for part in (image_lives, image_views, image_calls, pyramids, options, contexts, colours, matrices, matches, maps, brief, harris, marks, match_image):
        try:
            part(rep)
        except Unsupported as e:
            rep.undecide(part.__name__, e)
    for r, n in (("C++ image ownership", 20), ("C++ image", 40), ("C++ options", 20), ("C++ graphics context", 30), ("C++ matches", 20), ("C++ descriptor map", 40), ("C++ detector", 10), ("C++ annotator", 15)):
        rep.need(r, n)


_m = {}


def mod(real=()):
    """the interface with the C functions behind it left symbolic, except the named ones"""
    if real not in _m:
        import re
        bc = build.cxx_bitcode()
        src = open(build._shims()).read()
        names = sorted(set(re.findall(r"\b(s_[a-z0-9_]+)\(", src)))
        if real:
            names = [n for n in names if n.startswith(("s_img_", "s_ia_", "s_corr_"))]
        _m[real] = kernels([(n, n, None) for n in names], name="p23" + "r" * bool(real), opaque=[n for n in API if n not in real], bc=bc)
    return _m[real]


class Cxx(Session):
    inits = True

    def __init__(self, rep, rule, inst, real=(), given=None, **kw):
        ops = {n: self._api(n, k, r) for n, (k, r) in API.items() if n not in real}
        ops.update({"_Znwm": lambda p, i, st, a: malloc(p, i, st, a), "_Znam": lambda p, i, st, a: malloc(p, i, st, a), "_ZdlPv": lambda p, i, st, a: free(p, i, st, a[:1]),
                    "_ZdlPvm": lambda p, i, st, a: free(p, i, st, a[:1]), "_ZdaPv": lambda p, i, st, a: free(p, i, st, a[:1]), "_ZdaPvm": lambda p, i, st, a: free(p, i, st, a[:1]),
                    "_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createERmm": self._create})
        self.given = given or {}    # results of C functions
        self.made = kw.pop("made", {})    # what to put into a new C object
        super().__init__(rep, rule, mod(real), inst, opaque=ops)
        self.at = 0

    def run(self, fn, args, **kw):
        def one(p, st):
            p.rom["@__libc_single_threaded"] = lambda p, off, size: p.K(1)
            p.exists.update(("sampler", "userstream"))
        self.todo.append(one)
        return super().run(fn, args, **kw)

    def _create(self, p, i, st, a):
        c = p._load(st, st.mem.get(a[1].base), a[1].base, a[1].off, 8, "i64")
        return malloc(p, i, st, [c + 1])

    def _api(self, name, kinds, ret):
        def f(p, i, st, a):
            args = []
            ks = kinds.replace("*", "d" * 9)
            for k, v in zip(ks, a):
                if k == "h":
                    guard(p, st, v, 1, "use")
                    args.append(v)
                elif k == "s":
                    args.append(tuple(x.show() for x in cstr(p, st, v)))
                elif k == "3":
                    q = [p._load(st, st.mem.get(v.base), v.base, v.off + 8 * j, 8, "ptr") for j in range(3)]
                    for x in q:
                        guard(p, st, x, 1, "use")
                    args += q
                elif k == "d" and isinstance(v, Ptr) and v.base != "null" and "*" in kinds:
                    args.append(tuple(x.show() for x in cstr(p, st, v)))
                else:
                    args.append(v)
            n = sum(1 for e in st.events if e[0] == "api" and e[1] == name)
            r = None
            if ret == "N":
                r = malloc(p, i, st, [p.K(ROOM)])
                if name in self.made:
                    self.made[name](p, st, r, args)
            elif ret == "X":
                free(p, i, st, a)
            elif ret == "P":
                r = Ptr("sampler", p.K(0))
            g = self.given.get(name)
            if g is not None:
                r = g(p, st, args, n) if callable(g) else self.arg(g)
            elif ret == "v":
                r = p.V("%s#%d" % (name, n))
            st.events.append(("api", name, args, r))
            return r
        return f

    def calls_made(self):
        """what the library was asked to do since the last look"""
        ev = [e for e in self.events if e[0] == "api"]
        new, self.at = ev[self.at:], len(ev)
        return [e for e in new if e[1] not in LIFE]

    def skip(self):
        self.at = len([e for e in self.events if e[0] == "api"])

    def keep(self, q):
        if isinstance(q, Ptr) and q.base != "null":
            self.roots.append(q.base)
        return q

    def drop(self, fn, q):
        if q.base in self.roots:
            self.roots.remove(q.base)
        self.call(fn, q)

    def string(self, n, tag="c"):
        """a std::string of n symbolic characters and its text"""
        chars = ["%s%d" % (tag, k) for k in range(n)] if isinstance(n, int) else n
        q = self.keep(self.call("s_str_new", self.text(chars)))
        return q, tuple(self.V(c).show() for c in chars) if isinstance(n, int) else tuple(self.K(ord(c)).show() for c in n)

    def frees(self, name):
        return sum(1 for e in self.events if e[0] == "api" and e[1] == name)

    def asked(self, want, what):
        """exactly these calls were made"""
        got = self.calls_made()
        good = len(got) == len(want) and all(e[1] == n and len(e[2]) == len(a) and all(eq(self, x, y) for x, y in zip(e[2], a)) for e, (n, a) in zip(got, want))
        return self.ok(good, what, "the library is asked for %s, not %s" % (["%s(%s)" % (e[1], ", ".join(str(x) for x in e[2])) for e in got], ["%s(%s)" % (n, ", ".join(str(x) for x in a)) for n, a in want]))


def eq(s, x, y):
    if isinstance(y, Ptr) or y is None:
        y = y or Ptr("null", s.K(0))
        return isinstance(x, Ptr) and x.base == y.base and (x.base == "null" or x.off.same(y.off))
    if isinstance(y, tuple):
        return x == y
    if not isinstance(y, R):
        y = s.K(y)
    return isinstance(x, R) and (x.same(y) or x.is_const() and y.is_const() and abs(x.cval() - y.cval()) <= 1e-6 * abs(y.cval()))


def guarded(f):
    def g(rep, rule, *a):
        try:
            f(rep, rule, *a)
        except Fatal as e:
            rep.check(False, rule, "%s %s" % (f.__name__, a), str(e), "a legal call ends in a fatal error")
        except Unsupported as e:
            rep.undecide("%s %s" % (f.__name__, (a,)), e)
    return g


def nx(s, v):
    """the C image of an image"""
    return s.call("s_img_nx", v)


def en(name, key):
    e = mod().enum(name)
    if not e or key not in e:
        raise Unsupported("enum %s" % name)
    return e[key]


# ---------------------------------------------------------------- images
def image_lives(rep):
    rule = "C++ image ownership"

    @guarded
    def history(rep, rule, ops):
        """ops: n new, c copy of the last, a assign last two, s swap, d delete first, D delete last, b borrowed, o owned, w/W rewrap owned/borrowed"""
        s = Cxx(rep, rule, "history %s" % ops)
        objs, owner, ext = [], {}, []      # objs: (pointer, C image); owner: C image -> owned?
        def mine():
            s.k += 1
            return s.keep(s.call("s_img_new"))
        for o in ops:
            if o == "n":
                q = s.keep(s.call("s_img_new"))
                objs.append([q, nx(s, q).base])
                owner[objs[-1][1]] = True
            elif o in "obwW":
                # a C image of the caller's
                s.k += 1
                b = s.buf(ROOM, "heapraw%d" % s.k)
                own = o in "ow"
                if o in "ob":
                    q = s.keep(s.call("s_img_adopt", b, int(own)))
                    objs.append([q, b.base])
                else:
                    s.call("s_img_rewrap", objs[-1][0], b, int(own))
                    objs[-1][1] = b.base
                if own:
                    s.roots.remove(b.base)
                owner[b.base] = own
            elif o == "c":
                q = s.keep(s.call("s_img_share", objs[-1][0]))
                objs.append([q, objs[-1][1]])
            elif o == "a":
                s.call("s_img_assign", objs[0][0], objs[-1][0])
                objs[0][1] = objs[-1][1]
            elif o == "s":
                s.call("s_img_swap", objs[0][0], objs[-1][0])
                objs[0][1], objs[-1][1] = objs[-1][1], objs[0][1]
            elif o in "dD":
                q = objs.pop(0 if o == "d" else -1)
                s.drop("s_img_del", q[0])
            live = {c for _, c in objs if owner[c]}
            gone = [e[2][0].base for e in s.events if e[0] == "api" and e[1] == "nx_image_free"]
            want = sorted(c for c, own in owner.items() if own and c not in live)
            s.ok(sorted(gone) == want, "after %s" % o, "released C images %s, not %s" % (sorted(gone), want))
            for q, c in objs:
                h = nx(s, q)
                s.ok(isinstance(h, Ptr) and h.base == c, "the image behind an object after %s" % o, "is %s, not %s" % (h, c))
        while objs:
            s.drop("s_img_del", objs.pop()[0])
        s.end()
    for ops in ("n", "ncdd", "ncDd", "nnad", "nnaD", "nccddd", "nnsdD", "nnsDD", "b", "bcdd", "bwd", "bWd", "oW", "ow", "ncw", "ncW", "o", "ocdd", "oncadd", "nbsdd", "nbadD", "noac", "na", "ncsa"):
        history(rep, rule, ops)


def filled(k=0, ty=0, dt=0):
    """fields of a new C image"""
    def f(p, st, r, a):
        n = sum(1 for e in st.events if e[0] == "api" and e[1] == "nx_image_alloc")
        for fl in ("width", "height", "row_stride", "n_channels"):
            set_field(p, st, r.base, "NXImage", fl, p.V("%s%d" % (fl, n)))
        set_field(p, st, r.base, "NXImage", "type", p.K(ty[n] if isinstance(ty, list) else ty))
        set_field(p, st, r.base, "NXImage", "dtype", p.K(dt[n] if isinstance(dt, list) else dt))
        st.mem["pixels%d" % n] = Entry("havoc", None, None, "junk", None)
        p.exists.add("pixels%d" % n)
        set_field(p, st, r.base, "NXImage", "data", Ptr("pixels%d" % n, p.K(0)))
    return f


def image_views(rep):
    rule = "C++ image"
    G, A, U, F = en("NXImageType", "NX_IMAGE_GRAYSCALE"), en("NXImageType", "NX_IMAGE_RGBA"), en("NXImageDataType", "NX_IMAGE_UCHAR"), en("NXImageDataType", "NX_IMAGE_FLOAT32")

    @guarded
    def view(rep, rule, ty, dt):
        s = Cxx(rep, rule, "view of an image of type %d, %d" % (ty, dt), made={"nx_image_alloc": filled(ty=ty, dt=dt)})
        a = s.keep(s.call("s_img_new"))
        for fn, f in (("width", "width"), ("height", "height"), ("stride", "row_stride"), ("channels", "n_channels")):
            r = s.call("s_img_" + fn, a)
            s.ok(eq(s, r, s.V(f + "0")), fn, "is %s" % r)
        for fn, v in (("gray", ty == G), ("rgba", ty == A), ("uchar", dt == U), ("float", dt == F)):
            r = s.call("s_img_is_" + fn, a)
            s.ok(eq(s, r, int(v)), "is " + fn, "is %s" % r)
        for fn, w in (("data_uc", 0), ("data_f", 0)):
            r = s.call("s_img_" + fn, a)
            s.ok(eq(s, r, Ptr("pixels0", s.K(0))), fn, "is %s" % r)
        y = s.V("y")
        for fn, w in (("row_uc", 1), ("crow_uc", 1), ("row_f", 4), ("crow_f", 4)):
            r = s.call("s_img_" + fn, a, y)
            s.ok(eq(s, r, Ptr("pixels0", s.V("row_stride0") * y * w)), fn, "is %s" % r)
        s.asked([], "looking at an image changes nothing")
        s.drop("s_img_del", a)
        s.end()
    for ty in (G, A):
        for dt in (U, F):
            view(rep, rule, ty, dt)


def image_calls(rep):
    rule = "C++ image"
    T, D = [en("NXImageType", "NX_IMAGE_GRAYSCALE"), en("NXImageType", "NX_IMAGE_RGBA")], [en("NXImageDataType", "NX_IMAGE_UCHAR"), en("NXImageDataType", "NX_IMAGE_FLOAT32")]
    L = [en("NXImageLoadMode", "NX_IMAGE_LOAD_" + k) for k in ("AS_IS", "GRAYSCALE", "RGBA")]
    M = [en("NXColorMap", "NX_COLOR_MAP_" + k) for k in ("GRAY", "VIRIDIS", "PLASMA", "MAGMA", "CUBEHELIX")]
    DEF = -1

    def both(s):
        a, b, c = (s.keep(s.call("s_img_new")) for _ in range(3))
        h = [nx(s, q) for q in (a, b, c)]
        s.skip()
        return (a, b, c), h

    @guarded
    def one(rep, rule, fn, args, cfn, want, kw=()):
        """args and want name objects by a, b, c"""
        s = Cxx(rep, rule, "%s %s" % (fn, [x for x in args if not isinstance(x, R)]), made={"nx_image_alloc": filled(**dict(kw))})
        o, h = both(s)
        pick = lambda x, l: l["abc".index(x)] if isinstance(x, str) and x in ("a", "b", "c") else s.V(x) if isinstance(x, str) else x
        x = s.buf(8, "pixelbuf") if "pixelbuf" in args else None
        sub = lambda v, l: x if v == "pixelbuf" else None if v is None else pick(v, l)
        r = s.call("s_img_" + fn, *[sub(v, o) for v in args])
        s.asked([(cfn, [sub(v, h) for v in want])] if cfn else [], "request")
        s.ok(eq(s, r, o[0]), "returns the image itself", "returns %s" % r)
        for q in o:
            s.drop("s_img_del", q)
        s.end()

    for rg in (0, 1):
        for f in (0, 1):
            one(rep, rule, "create", ["a", "W", "H", "S", rg, f], "nx_image_resize", ["a", "W", "H", "S", T[rg], D[f]])
        one(rep, rule, "create_rgba" if rg else "create_gray", ["a", "W", "H", 0], "nx_image_resize", ["a", "W", "H", DEF, T[rg], D[0]])
        one(rep, rule, "create_rgba" if rg else "create_gray", ["a", "W", "H", 1], "nx_image_resize", ["a", "W", "H", DEF, T[rg], D[1]])
        one(rep, rule, "convert", ["a", rg], "nx_image_convert_type", ["a", T[rg]])
        for own in (0, 1):
            one(rep, rule, "wrap_uc", ["a", "pixelbuf", "W", "H", "S", rg, own], "nx_image_wrap", ["a", "pixelbuf", "W", "H", "S", T[rg], D[0], own])
            one(rep, rule, "wrap_f", ["a", "pixelbuf", "W", "H", "S", rg, own], "nx_image_wrap", ["a", "pixelbuf", "W", "H", "S", T[rg], D[1], own])
    for t, d in itertools.product((0, 1), (0, 1)):
        one(rep, rule, "create_like", ["a", "b"], "nx_image_resize", ["a", "width1", "height1", "row_stride1", T[t], D[d]], (("ty", [T[1 - t], T[t], T[1 - t]]), ("dt", [D[1 - d], D[d], D[1 - d]])))
    one(rep, rule, "copy_of", ["a", "b"], "nx_image_copy", ["a", "b"])
    one(rep, rule, "copy_of", ["a", "a"], None, [])
    one(rep, rule, "release", ["a"], "nx_image_release", ["a"])
    one(rep, rule, "zero", ["a"], "nx_image_set_zero", ["a"])
    for v in (0, 1):
        one(rep, rule, "norm", ["a", v], "nx_image_normalize_to_zero_one", ["a", v])
    one(rep, rule, "axpy", ["a", "x", "y"], "nx_image_axpy", ["a", "x", "y"])
    for k in range(5):
        one(rep, rule, "map", ["a", "b", "c", k], "nx_image_apply_colormap", ["b", "c", M[k]])
    one(rep, rule, "scaled", ["a", "b", "x"], "nx_image_scale", ["a", "b", "x"])
    one(rep, rule, "down", ["a", "b"], "nx_image_downsample", ["a", "b"])
    one(rep, rule, "box", ["a", "b", "x", "y"], "nx_image_filter_box", ["a", "b", "x", "y", None])
    one(rep, rule, "box_x", ["a", "b", "x"], "nx_image_filter_box_x", ["a", "b", "x", None])
    one(rep, rule, "box_y", ["a", "b", "x"], "nx_image_filter_box_y", ["a", "b", "x", None])
    one(rep, rule, "smooth", ["a", "b", "x", "y", "k"], "nx_image_smooth", ["a", "b", "x", "y", "k", None])
    one(rep, rule, "dx", ["a", "b"], "nx_image_deriv_x", ["a", "b"])
    one(rep, rule, "dy", ["a", "b"], "nx_image_deriv_y", ["a", "b"])

    @guarded
    def clone(rep, rule):
        s = Cxx(rep, rule, "clone")
        a = s.keep(s.call("s_img_new"))
        h = nx(s, a)
        b = s.keep(s.call("s_img_clone", a))
        g = nx(s, b)
        s.ok(g.base != h.base, "has an image of its own", "shares %s" % h)
        s.asked([("nx_image_copy", [g, h])], "request")
        s.drop("s_img_del", a)
        s.drop("s_img_del", b)
        s.end()
    clone(rep, rule)

    @guarded
    def files(rep, rule, n, m, res):
        OK = 0
        s = Cxx(rep, rule, "files, name of %d characters, mode %d, result %d" % (n, m, res), given={"nx_image_save": res, "nx_image_load": res})
        a = s.keep(s.call("s_img_new"))
        h = nx(s, a)
        t, txt = s.string(n)
        s.skip()
        s.call("s_img_xsave", a, t)
        s.asked([("nx_image_xsave", [h, txt])], "xsave")
        r = s.call("s_img_save", a, t)
        s.asked([("nx_image_save", [h, txt])], "save")
        s.ok(eq(s, r, int(res == OK)), "result of save", "is %s" % r)
        s.call("s_img_xload", a, t, m)
        s.asked([("nx_image_xload", [h, txt, L[m]])], "xload")
        r = s.call("s_img_load", a, t, m)
        s.asked([("nx_image_load", [h, txt, L[m]])], "load")
        s.ok(eq(s, r, int(res == OK)), "result of load", "is %s" % r)
        s.drop("s_img_del", a)
        s.drop("s_str_del", t)
        s.end()
    for n, m, res in ((1, 0, 0), (9, 1, 1), (20, 2, 0)):
        files(rep, rule, n, m, res)


# ---------------------------------------------------------------- pyramids
def levels_of(n):
    def f(p, st, r, a):
        set_field(p, st, r.base, "NXImagePyr", "n_levels", p.K(n))
        b = "levels%d" % sum(1 for e in st.events if e[0] == "api")
        p.exists.add(b)
        set_field(p, st, r.base, "NXImagePyr", "levels", Ptr(b, p.K(0)))
        w = p.mod.di[("struct", "NXImagePyrLevel")]
        for k in range(n):
            for fl, v, sz in (("img", Ptr("levelimg%d" % k, p.K(0)), 8), ("sigma", p.V("lsigma%d" % k), 4), ("scale", p.V("lscale%d" % k), 4)):
                off, size = field_off(p, "NXImagePyrLevel", fl)
                st.mem[b] = Entry("store", p.K(16 * k + off), size, v, st.mem.get(b))
            p.exists.add("levelimg%d" % k)
    return f


def builder_of(ty):
    def f(p, st, r, a):
        set_field(p, st, r.base, "NXImagePyrBuilder", "type", p.K(ty))
        for fl in ("n_octaves", "n_octave_steps", "scale_factor", "sigma0"):
            set_field(p, st, r.base, "NXImagePyrBuilder", "pyr_info." + fl, p.V(fl))
    return f


def pyramids(rep):
    rule = "C++ pyramid"
    B = {k: en("NXImagePyrBuilderType", "NX_IMAGE_PYR_BUILDER_" + k.upper()) for k in ("fast", "fine", "scaled")}

    @guarded
    def one(rep, rule, kind, args):
        s = Cxx(rep, rule, "%s pyramid" % kind, made={"nx_image_pyr_builder_build0": levels_of(3), "nx_image_pyr_builder_new_" + kind: builder_of(B[kind])})
        im = s.keep(s.call("s_img_new"))
        h = nx(s, im)
        s.skip()
        q = s.keep(s.call("s_pyr_" + kind, im, *[s.V(x) for x in args]))
        ev = [e for e in s.events if e[0] == "api" and e[1] in ("nx_image_pyr_builder_new_" + kind, "nx_image_pyr_builder_build0")]
        bld, pyr = (ev[0][3], ev[1][3]) if len(ev) == 2 else (None, None)
        if s.asked([("nx_image_pyr_builder_new_" + kind, [s.V(x) for x in args]), ("nx_image_pyr_builder_build0", [bld, h])], "request"):
            for fn, want in (("levels", s.K(3)), ("octaves", s.V("n_octaves")), ("steps", s.V("n_octave_steps")), ("factor", s.V("scale_factor")), ("sigma0", s.V("sigma0"))) + tuple(("is_" + k, s.K(int(k == kind))) for k in B):
                r = s.call("s_pyr_" + fn, q)
                s.ok(eq(s, r, want), fn, "is %s" % r)
            for k in range(3):
                for fn, want in (("level_sigma", "lsigma%d" % k), ("level_scale", "lscale%d" % k)):
                    r = s.call("s_pyr_" + fn, q, k)
                    s.ok(eq(s, r, s.V(want)), "%s %d" % (fn, k), "is %s" % r)
                l = s.keep(s.call("s_pyr_at", q, k))
                r = nx(s, l)
                s.ok(eq(s, r, Ptr("levelimg%d" % k, s.K(0))), "image of level %d" % k, "is %s" % r)
                n = s.frees("nx_image_free")
                s.drop("s_img_del", l)
                s.ok(s.frees("nx_image_free") == n, "image of level %d is borrowed" % k, "is released with the view")
            r = s.call("s_pyr_nx", q)
            s.ok(eq(s, r, pyr), "the C pyramid", "is %s" % r)
            s.asked([], "looking at a pyramid changes nothing")
            s.call("s_pyr_rebuild", q)
            s.asked([("nx_image_pyr_builder_update", [bld, pyr])], "rebuild")
            s.call("s_pyr_rebuild_from", q, im)
            s.asked([("nx_image_pyr_builder_build", [bld, pyr, h])], "rebuild from")
        s.drop("s_pyr_del", q)
        s.drop("s_img_del", im)
        s.end()
    one(rep, rule, "fast", ["n", "sg"])
    one(rep, rule, "fine", ["o", "n", "sg"])
    one(rep, rule, "scaled", ["n", "f", "sg"])

    @guarded
    def empty(rep, rule):
        s = Cxx(rep, rule, "empty pyramid")
        q = s.keep(s.call("s_pyr_new"))
        s.drop("s_pyr_del", q)
        s.end()
    empty(rep, rule)


# ---------------------------------------------------------------- options
def options(rep):
    rule = "C++ options"

    def new(inst, **kw):
        s = Cxx(rep, rule, inst, **kw)
        o = s.keep(s.call("s_opt_new"))
        h = [e for e in s.events if e[0] == "api" and e[1] == "nx_options_alloc"]
        if len(h) != 1:
            raise Unsupported("options object")
        s.skip()
        return s, o, h[0][3]

    def over(s, o, *strs):
        for t in strs:
            s.drop("s_str_del", t)
        s.drop("s_opt_del", o)
        s.end()
    lit = lambda s, t: tuple(s.K(ord(c)).show() for c in t)

    @guarded
    def add(rep, rule, kind, req, n, val):
        s, o, h = new("add %s, %s, texts of %d characters, default %s" % (kind, "required" if req else "optional", n, val))
        sw, t1 = s.string(n, "w")
        hl, t2 = s.string(n + 1, "h")
        s.skip()
        f = {"bool": "b", "int": "i", "double": "d", "string": "s", "rest": "r"}[kind]
        f = lit(s, f.upper() if req else f)
        if kind == "rest":
            s.call("s_opt_add_rest", o, hl, req)
            s.asked([("nx_options_add", [h, f, t2])], "request")
        elif kind == "string":
            v, t3 = s.string(n + 2, "v")
            s.skip()
            s.call("s_opt_add_string", o, sw, hl, req, v)
            s.asked([("nx_options_add", [h, f, t1, t2, t3])], "request")
            s.drop("s_str_del", v)
        else:
            v = s.V(val) if isinstance(val, str) else val
            s.call("s_opt_add_" + kind, o, sw, hl, req, v)
            s.asked([("nx_options_add", [h, f, t1, t2, v])], "request")
        over(s, o, sw, hl)
    for req in (0, 1):
        for kind, vals in (("bool", (0, 1)), ("int", ("v",)), ("double", ("v",)), ("string", (None,)), ("rest", (None,))):
            for val in vals:
                for n in (2, 17):
                    add(rep, rule, kind, req, n, val)

    @guarded
    def get(rep, rule, kind, n, val):
        s, o, h = new("get %s, name of %d characters, value %s" % (kind, n, val), given={"nx_options_get_" + kind: val, "nx_options_is_set": val} if not isinstance(val, str) and val is not None else
                      {"nx_options_get_string": lambda p, st, a, k: Ptr("heapvalue", p.K(0))} if kind == "string" else {})
        t, txt = s.string(n)
        if kind == "string":
            chars = ["s%d" % k for k in range(int(val))]
            s.text(chars, "heapvalue")
        s.skip()
        r = s.call("s_opt_" + ("is_set" if kind == "is_set" else "get_" + kind), o, t)
        cfn = "nx_options_" + ("is_set" if kind == "is_set" else "get_" + kind)
        s.asked([(cfn, [h, txt])], "request")
        if kind == "string":
            s.keep(r)
            got = [x.show() for x in s.str(s.call("s_str_text", r))]
            s.ok(got == [s.V(c).show() for c in chars], "result", "is %s" % got)
            s.drop("s_str_del", r)
        else:
            want = s.V(cfn + "#0") if val is None else val
            s.ok(eq(s, r, want), "result", "is %s, not %s" % (r, want))
        over(s, o, t)
    for n in (3, 16):
        for v in (0, 1):
            get(rep, rule, "bool", n, v)
            get(rep, rule, "is_set", n, v)
        get(rep, rule, "int", n, None)
        get(rep, rule, "double", n, None)
        for k in (0, 5, 18):
            get(rep, rule, "string", n, str(k))

    @guarded
    def rest(rep, rule, lens):
        s, o, h = new("rest %s" % (lens,), given={"nx_options_get_rest": lambda p, st, a, k: Ptr("null" if lens is None else "heaprest", p.K(0))})
        if lens is not None:
            q = s.buf(8 * (len(lens) + 1), "heaprest")
            ps = [s.text(["r%d.%d" % (k, j) for j in range(n)]) for k, n in enumerate(lens)]
            def put(p, st):
                for k, x in enumerate(ps + [Ptr("null", p.K(0))]):
                    st.mem["heaprest"] = Entry("store", p.K(8 * k), 8, x, st.mem.get("heaprest"))
            s.todo.append(put)
        v = s.keep(s.call("s_opt_rest", o))
        s.asked([("nx_options_get_rest", [h])], "request")
        n = s.call("s_vec_size", v)
        s.ok(eq(s, n, len(lens or ())), "number of arguments", "is %s" % n)
        for k, ln in enumerate(lens or ()):
            got = [x.show() for x in s.str(s.call("s_vec_at", v, k))]
            s.ok(got == [s.V("r%d.%d" % (k, j)).show() for j in range(ln)], "argument %d" % k, "is %s" % got)
        s.drop("s_vec_del", v)
        over(s, o)
    for lens in (None, (), (3,), (1, 20), (2, 0, 16), (1, 2, 3, 4, 5)):
        rest(rep, rule, lens)

    @guarded
    def other(rep, rule):
        s, o, h = new("other requests")
        s.call("s_opt_add_help", o)
        s.asked([("nx_options_add_help", [h])], "help")
        av = s.buf(16)
        s.call("s_opt_args", o, s.V("argc"), av)
        s.asked([("nx_options_set_from_args", [h, s.V("argc"), av])], "arguments")
        t, txt = s.string(19)
        s.skip()
        for fn, cfn in (("header", "set_usage_header"), ("footer", "set_usage_footer")):
            s.call("s_opt_" + fn, o, t)
            s.asked([("nx_options_" + cfn, [h, txt])], fn)
        for fn in ("values", "usage"):
            s.call("s_opt_" + fn, o, Ptr("userstream", s.K(0)))
            s.asked([("nx_options_print_" + fn, [h, Ptr("userstream", s.K(0))])], fn)
        over(s, o, t)
    other(rep, rule)


# ---------------------------------------------------------------- graphics context
def contexts(rep):
    rule = "C++ graphics context"

    @guarded
    def make(rep, rule, kind):
        s = Cxx(rep, rule, "%s context" % kind)
        im = s.keep(s.call("s_img_new"))
        h = nx(s, im)
        t, txt = s.string(18)
        s.skip()
        if kind == "image":
            g = s.keep(s.call("s_gc_image", im))
            s.asked([("nx_gc_new", [h])], "request")
        else:
            g = s.keep(s.call("s_gc_" + kind, t, s.V("w"), s.V("h")))
            s.asked([("nx_gc_new_" + kind, [txt, s.V("w"), s.V("h")])], "request")
        s.ok(s.frees("nx_gc_free") == 0, "the context lives", "is released at once")
        s.drop("s_gc_del", g)
        s.ok(s.frees("nx_gc_free") == 1, "the context is released", "%d times" % s.frees("nx_gc_free"))
        s.drop("s_img_del", im)
        s.drop("s_str_del", t)
        s.end()
    for k in ("image", "pdf", "svg"):
        make(rep, rule, k)

    @guarded
    def draw(rep, rule):
        s = Cxx(rep, rule, "requests")
        t, txt = s.string(17)
        im = s.keep(s.call("s_img_new"))
        g = s.keep(s.call("s_gc_image", im))
        h = [e for e in s.events if e[0] == "api" and e[1] == "nx_gc_new"][0][3]
        d, w, hh = s.buf(32), s.buf(8), s.buf(8)
        s.skip()
        V = lambda n: [s.V("n%d" % k) for k in range(n)]
        for fn, n in (("clear", 0), ("new_path", 0), ("stroke", 0), ("fill", 0), ("flush", 0), ("set_color", 4), ("set_line_width", 1), ("move_to", 2), ("line_to", 2), ("rel_move_to", 2), ("rel_line_to", 2), ("line", 4),
                      ("rectangle", 4), ("arc", 5), ("circle", 3), ("curve_to", 6), ("rel_curve_to", 6), ("curve", 8)):
            s.call("s_gc_" + fn, g, *V(n))
            s.asked([("nx_gc_" + fn, [h] + V(n))], fn)
        s.call("s_gc_set_vgcolor", g, *V(4))
        s.asked([("nx_gc_set_color", [h] + V(4))], "colour")
        s.call("s_gc_set_line_dash", g, s.V("n"), d, s.V("o"))
        s.asked([("nx_gc_set_line_dash", [h, s.V("n"), d, s.V("o")])], "dashes")
        s.call("s_gc_text", g, s.V("x"), s.V("y"), t, s.V("z"))
        s.asked([("nx_gc_draw_text", [h, s.V("x"), s.V("y"), txt, s.V("z")])], "text")
        s.call("s_gc_text_size", g, t, s.V("z"), w, hh)
        s.asked([("nx_gc_set_text_size", [h, txt, s.V("z"), w, hh])], "text size")
        for fn, v in (("a4_width", 210), ("a4_height", 297)):
            r = s.call("s_gc_" + fn)
            s.ok(r.is_const() and abs(float(r.cval()) - v * 72 / 25.4) < 0.01, fn + " in points", "is %s" % r)
        s.drop("s_gc_del", g)
        s.drop("s_img_del", im)
        s.drop("s_str_del", t)
        s.end()
    draw(rep, rule)


def colours(rep):
    rule = "C++ colours"
    NAMED = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, 0), (1, 1, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1)]
    M = [en("NXColorMap", "NX_COLOR_MAP_" + k) for k in ("GRAY", "VIRIDIS", "PLASMA", "MAGMA", "CUBEHELIX")]

    @guarded
    def named(rep, rule, k):
        s = Cxx(rep, rule, "colour %d" % k)
        o = s.buf(64)
        s.call("s_color_named", k, o)
        got = [s.load(o, 8 * j, 8, "double") for j in range(8)]
        s.ok(all(eq(s, g, w) for g, w in zip(got, (NAMED[k] + (1,)) * 2)), "components", "are %s" % [str(g) for g in got])
        s.end()
    for k in range(8):
        named(rep, rule, k)

    @guarded
    def random(rep, rule):
        s = Cxx(rep, rule, "random colour")
        o = s.buf(32)
        s.call("s_color_random", o)
        got = sorted(s.load(o, 8 * j, 8, "double").show() for j in range(4))
        s.ok(got == sorted(s.V("nx_uniform_sampler_sample_d#%d" % k).show() for k in range(4)), "components are four samples", "are %s" % got)
        s.end()
    random(rep, rule)

    @guarded
    def mapped(rep, rule, k):
        def apply(p, st, a, n):
            for j, q in enumerate(a[:3]):
                v = p.V("rgb"[j])
                st.cons = p.assume(p.assume(st.cons, v, ZERO | POS), v - 255, NEG | ZERO)
                guard(p, st, q, 1, "write")
                st.mem[q.base] = Entry("store", q.off, 1, v, st.mem.get(q.base))
        s = Cxx(rep, rule, "colour map %d" % k, given={"nx_color_map_apply": apply})
        o = s.buf(32)
        s.call("s_color_map", k, s.V("v"), o)
        e = s.calls_made()
        s.ok(len(e) == 1 and eq(s, e[0][2][3], s.V("v")) and eq(s, e[0][2][4], M[k]), "request", "is %s" % [[str(x) for x in y[2]] for y in e])
        got = [s.load(o, 8 * j, 8, "double") for j in range(4)]
        s.ok(all(isinstance(g, R) and (g * 255).same(s.V(c)) for g, c in zip(got, "rgb")), "components", "are %s" % [str(g) for g in got])
        s.ok(eq(s, got[3], 1), "is opaque", "alpha is %s" % got[3])
        s.end()
    for k in range(5):
        mapped(rep, rule, k)


# ---------------------------------------------------------------- homography and fundamental matrix
def put_doubles(s, q, vs, w=8):
    def t(p, st):
        for k, v in enumerate(vs):
            st.mem[q.base] = Entry("store", p.K(w * k), w, v, st.mem.get(q.base))
    s.todo.append(t)


def add_matches(s, c, n, costs=None, inl=None):
    for k in range(n):
        V = lambda nm: s.V("%s%d" % (nm, k))
        r = s.call("s_corr_add", c, V("id"), V("x"), V("y"), V("s"), V("idp"), V("xp"), V("yp"), V("sp"), costs[k] if costs else V("cost"), inl[k] if inl else k % 2)
        yield r


def matrices(rep):
    rule = "C++ matrices"

    @guarded
    def one(rep, rule, kind):
        s = Cxx(rep, rule, {"h": "homography", "f": "fundamental matrix"}[kind])
        q = s.keep(s.call("s_%s_new" % kind))
        d = s.call("s_%s_data" % kind, q)
        got = [s.load(d, 8 * k, 8, "double") for k in range(9)]
        want = [1, 0, 0, 0, 1, 0, 0, 0, 1] if kind == "h" else [0, 0, 0, 0, 0, 1, 0, -1, 0]
        s.ok(all(eq(s, g, w) for g, w in zip(got, want)), "initial value", "is %s" % [str(g) for g in got])
        m = [s.V("m%d" % k) for k in range(9)]
        b = s.buf(72)
        put_doubles(s, b, m)
        s.call("s_%s_set" % kind, q, b)
        got = [s.load(d, 8 * k, 8, "double") for k in range(9)]
        s.ok(all(eq(s, g, w) for g, w in zip(got, m)), "value set", "is %s" % [str(g) for g in got])
        x, y = s.V("x"), s.V("y")
        row = [m[0] * x + m[3] * y + m[6], m[1] * x + m[4] * y + m[7], m[2] * x + m[5] * y + m[8]]
        if kind == "h":
            for t, w, ty in (("d", 8, "double"), ("f", 4, "float")):
                a, o = s.buf(2 * w), s.buf(2 * w)
                put_doubles(s, a, [x, y], w)
                s.call("s_h_fwd_" + t, q, o, a)
                got = [s.load(o, w * k, w, ty) for k in range(2)]
                s.ok(all((g * row[2]).same(r) for g, r in zip(got, row)), "transfer %s" % ty, "is %s" % [g.show() for g in got])
        else:
            a, o = s.buf(16), s.buf(24)
            put_doubles(s, a, [x, y])
            s.call("s_f_line", q, o, a)
            got = [s.load(o, 8 * k, 8, "double") for k in range(3)]
            s.ok(all(g.same(r) for g, r in zip(got, row)), "epipolar line", "is %s" % [g.show() for g in got])
            pm = s.buf(64)
            put_doubles(s, pm, [x, y, s.V("xp"), s.V("yp")], 4)
            for o_, r in s.calls("s_f_dist", q, pm):
                num = row[0] * s.V("xp") + row[1] * s.V("yp") + row[2]
                s.ok(isinstance(r, R) and (r * r * (row[0] * row[0] + row[1] * row[1])).same(num * num), "epipolar distance", "is %s" % r)
        c = s.keep(s.call("s_corr_new"))
        for _ in add_matches(s, c, 3):
            pass
        ms = s.call("s_corr_matches", c)
        s.skip()
        n = "homography" if kind == "h" else "fundamental"
        r = s.call("s_%s_ransac" % kind, q, c, s.V("tol"), s.V("iter"))
        s.asked([("nx_%s_estimate_ransac" % n, [d, 3, ms, s.V("tol"), s.V("iter")])], "robust estimate")
        s.ok(eq(s, r, s.V("nx_%s_estimate_ransac#0" % n)), "inliers of the robust estimate", "is %s" % r)
        r = s.call("s_%s_inliers" % kind, q, c, s.V("tol"))
        s.asked([("nx_homography_estimate_dlt_inliers" if kind == "h" else "nx_fundamental_estimate_inliers", [d, 3, ms]), ("nx_%s_mark_inliers" % n, [d, 3, ms, s.V("tol")])], "estimate from inliers")
        s.ok(eq(s, r, s.V("nx_%s_mark_inliers#0" % n)), "inliers after the estimate", "is %s" % r)
        if kind == "h":
            for e in ("fwd", "bwd", "sym"):
                r = s.call("s_h_err_" + e, q, c)
                s.asked([("nx_homography_transfer_error_" + e, [d, 3, ms])], "transfer error " + e)
                s.ok(eq(s, r, s.V("nx_homography_transfer_error_%s#0" % e)), "result of transfer error " + e, "is %s" % r)
        s.drop("s_corr_del", c)
        s.drop("s_%s_del" % kind, q)
        s.end()
    for k in "hf":
        one(rep, rule, k)


# ---------------------------------------------------------------- correspondences
FIELDS = [("x", 0, 4), ("y", 4, 4), ("xp", 8, 4), ("yp", 12, 4), ("cost", 16, 4), ("s", 20, 4), ("sp", 24, 4), ("id", 32, 8), ("idp", 40, 8), ("in", 48, 4)]


def record(s, q):
    return {n: s.load(q, o, w, "i64" if w == 8 else "i32" if n == "in" else "float") for n, o, w in FIELDS}


def is_match(s, rec, k, cost=None, inl=None):
    for n in rec:
        w = s.K(inl if inl is not None else k % 2) if n == "in" else s.K(cost) if n == "cost" and cost is not None else s.V("%s%d" % (n, k))
        if not eq(s, rec[n], w):
            return "%s is %s, not %s" % (n, rec[n], w)
    return None


def matches(rep):
    rule = "C++ matches"

    @guarded
    def grow(rep, rule, n, reserve):
        s = Cxx(rep, rule, "%d matches%s" % (n, ", room reserved" if reserve else ""))
        c = s.keep(s.call("s_corr_new"))
        st = s.call("s_corr_stats", c)
        if reserve:
            s.call("s_corr_reserve", c, n)
        for k, r in enumerate(add_matches(s, c, n)):
            s.ok(eq(s, r, k + 1), "number after adding match %d" % k, "is %s" % r)
        r = s.call("s_corr_size", c)
        s.ok(eq(s, r, n), "number of matches", "is %s" % r)
        for k in range(n):
            for fn in ("at", "cat"):
                e = is_match(s, record(s, s.call("s_corr_" + fn, c, k)), k)
                s.ok(e is None, "match %d%s" % (k, "" if fn == "at" else ", const"), e or "")
            r = s.call("s_corr_is_inlier", c, k)
            s.ok(eq(s, r, k % 2), "inlier flag %d" % k, "is %s" % r)
        ms = s.call("s_corr_matches", c)
        s.skip()
        # an independent copy
        d = s.keep(s.call("s_corr_clone", c))
        r = s.call("s_corr_size", d)
        s.ok(eq(s, r, n), "size of the clone", "is %s" % r)
        dm = s.call("s_corr_matches", d)
        s.ok(dm.base != ms.base or n == 0, "the clone has matches of its own", "shared")
        ds = s.call("s_corr_stats", d)
        s.ok(ds.base != st.base, "the clone has statistics of its own", "shared")
        for k in range(n):
            e = is_match(s, record(s, s.call("s_corr_at", d, k)), k)
            s.ok(e is None, "match %d of the clone" % k, e or "")
        s.skip()
        if n:
            s.call("s_corr_set_inlier", c, n - 1, 1)
            s.ok(eq(s, s.call("s_corr_is_inlier", c, n - 1), 1), "flag set", "is not")
            s.call("s_corr_set_inlier", c, n - 1, 0)
            s.ok(eq(s, s.call("s_corr_is_inlier", c, n - 1), 0), "flag cleared", "is not")
            s.ok(eq(s, s.call("s_corr_is_inlier", d, n - 1), (n - 1) % 2), "the clone's flag stays", "changed")
        for fn, cfn in (("normalize", "nx_point_match_2d_stats_normalize_matches"), ("denormalize", "nx_point_match_2d_stats_denormalize_matches")):
            s.call("s_corr_" + fn, c)
            s.asked([(cfn, [st, n, ms])] + ([("nx_point_match_2d_stats_reset", [st])] if fn == "denormalize" else []), fn)
        m = s.buf(72)
        s.call("s_corr_denorm_h", c, m)
        s.asked([("nx_point_match_2d_stats_denormalize_homography", [st, m])], "homography")
        s.call("s_corr_denorm_f", c, m)
        s.asked([("nx_point_match_2d_stats_denormalize_fundamental", [st, m])], "fundamental matrix")
        s.call("s_corr_clear", c)
        s.asked([("nx_point_match_2d_stats_reset", [st])], "clear resets the statistics")
        s.ok(eq(s, s.call("s_corr_size", c), 0), "clear", "matches remain")
        s.ok(eq(s, s.call("s_corr_size", d), n), "the clone stays", "is cleared as well")
        for k, r in enumerate(add_matches(s, c, 1)):
            s.ok(eq(s, r, 1), "adding after clear", "is %s" % r)
        e = is_match(s, record(s, s.call("s_corr_at", c, 0)), 0)
        s.ok(e is None, "match added after clear", e or "")
        s.drop("s_corr_del", c)
        s.drop("s_corr_del", d)
        s.end()
    for n in (0, 1, 2, 3, 5):
        for rv in (0, 1):
            grow(rep, rule, n, rv)

    @guarded
    def stats(rep, rule):
        """the statistics go with a clone"""
        def fill(p, st, r, a):
            for k in range(64):
                st.mem[r.base] = Entry("store", p.K(8 * k), 8, p.V("st%d.%d" % (sum(1 for e in st.events if e[0] == "api"), k)), st.mem.get(r.base))
        s = Cxx(rep, rule, "statistics of a clone", made={"nx_point_match_2d_stats_new": fill})
        c = s.keep(s.call("s_corr_new"))
        a = s.call("s_corr_stats", c)
        d = s.keep(s.call("s_corr_clone", c))
        b = s.call("s_corr_stats", d)
        size = max(e[1] + e[2] for e in s.c.p.mod.di[("struct", "NXPointMatch2DStats")]["els"])
        w = [s.load(a, 8 * k, 8, "double") for k in range(size // 8)]
        g = [s.load(b, 8 * k, 8, "double") for k in range(size // 8)]
        s.ok(len(w) > 2 and all(x.same(y) for x, y in zip(w, g)), "are the same", "are %s" % [str(x) for x in g])
        s.drop("s_corr_del", c)
        s.drop("s_corr_del", d)
        s.end()
    stats(rep, rule)

    @guarded
    def order(rep, rule, costs):
        s = Cxx(rep, rule, "sorting %s" % (costs,))
        s.laps = 200
        c = s.keep(s.call("s_corr_new"))
        for _ in add_matches(s, c, len(costs), costs):
            pass
        s.call("s_corr_sort", c)
        s.ok(eq(s, s.call("s_corr_size", c), len(costs)), "number of matches", "changed")
        seen = []
        for k in range(len(costs)):
            rec = record(s, s.call("s_corr_at", c, k))
            src = [j for j in range(len(costs)) if is_match(s, rec, j, costs[j]) is None]
            if not s.ok(len(src) == 1, "match %d is one of the matches" % k, "%s" % {n: str(v) for n, v in rec.items()}):
                break
            seen.append(src[0])
        else:
            s.ok(sorted(seen) == list(range(len(costs))), "every match is kept", "order %s" % seen)
            s.ok(all(costs[a] <= costs[b] for a, b in zip(seen, seen[1:])), "cheapest first", "order %s" % seen)
        s.drop("s_corr_del", c)
        s.end()
    for costs in [(), (1,)] + list(itertools.permutations((1, 2, 3))) + [(2, 1, 2), (1, 1), (4, 3, 2, 1, 0), (3, 1, 3, 0, 2), tuple((7 * k) % 18 for k in range(18))]:
        order(rep, rule, costs)

    @guarded
    def keys(rep, rule):
        s = Cxx(rep, rule, "match of two keypoints")
        c = s.keep(s.call("s_corr_new"))
        k, kp = s.buf(64), s.buf(64)
        def put(p, st):
            for q, t in ((k, "k"), (kp, "kp")):
                for f in ("x", "y", "xs", "ys", "level", "scale", "sigma", "score", "ori", "id"):
                    set_field(p, st, q.base, "NXKeypoint", f, p.V(t + "." + f))
        s.todo.append(put)
        for n in range(2):
            r = s.call("s_corr_add_keys", c, k, kp, s.V("s0"), s.V("cost"), 1)
            s.ok(eq(s, r, n + 1), "number after adding", "is %s" % r)
        rec = record(s, s.call("s_corr_at", c, 1))
        V = s.V
        for n, t, f in (("x", "k", "xs"), ("y", "k", "ys"), ("xp", "kp", "xs"), ("yp", "kp", "ys")):
            s.ok(eq(s, rec[n], V("%s.%s" % (t, f)) * V(t + ".scale")), "full-size position " + n, "is %s" % rec[n])
        for n, w in (("cost", V("cost")), ("s", V("s0") * V("k.scale")), ("sp", V("s0") * V("kp.scale")), ("id", V("k.id")), ("idp", V("kp.id")), ("in", s.K(1))):
            s.ok(eq(s, rec[n], w), n, "is %s" % rec[n])
        s.drop("s_corr_del", c)
        s.end()
    keys(rep, rule)


# ---------------------------------------------------------------- descriptor maps
def maps(rep):
    rule = "C++ descriptor map"

    def put_desc(s, q, n, tag):
        def t(p, st):
            for j in range(n):
                v = p.V("%s.%d" % (tag, j))
                st.mem[q.base] = Entry("store", p.K(j), 1, v, st.mem.get(q.base))
        s.todo.append(t)

    def content(s, m, ids, octets, tags, what):
        s.ok(eq(s, s.call("s_map_size", m), len(ids)), "size " + what, "is not %d" % len(ids))
        for k, (i, t) in enumerate(zip(ids, tags)):
            r = s.call("s_map_id", m, k)
            s.ok(eq(s, r, i), "id %d %s" % (k, what), "is %s" % r)
            q = s.call("s_map_desc", m, k)
            got = [s.load(q, j, 1, "i8") for j in range(octets)]
            s.ok(all(eq(s, g, s.V("%s.%d" % (t, j))) for j, g in enumerate(got)), "descriptor %d %s" % (k, what), "is %s" % [str(g) for g in got])

    @guarded
    def grow(rep, rule, n, octets, reserve):
        s = Cxx(rep, rule, "%d descriptors of %d bytes%s" % (n, octets, ", room reserved" if reserve else ""))
        m = s.keep(s.call("s_map_new", octets))
        d = s.buf(octets)
        s.ok(eq(s, s.call("s_map_octets", m), octets), "descriptor size", "differs")
        if reserve:
            s.call("s_map_reserve", m, n)
        ids, tags = [s.V("id%d" % k) for k in range(n)], ["d%d" % k for k in range(n)]
        for k in range(n):
            put_desc(s, d, octets, tags[k])
            r = s.call("s_map_add", m, ids[k], d)
            s.ok(eq(s, r, k + 1), "number after adding %d" % k, "is %s" % r)
        content(s, m, ids, octets, tags, "after adding")
        c = s.keep(s.call("s_map_copy", m))
        s.call("s_map_clear", m)
        content(s, m, [], octets, [], "after clearing")
        content(s, c, ids, octets, tags, "of a copy")
        s.call("s_map_set_octets", c, octets + 1)
        content(s, c, [], octets, [], "after a change of size")
        s.ok(eq(s, s.call("s_map_octets", c), octets + 1), "changed descriptor size", "differs")
        e = s.buf(octets + 1)
        put_desc(s, e, octets + 1, "e")
        s.call("s_map_add", c, s.V("ide"), e)
        content(s, c, [s.V("ide")], octets + 1, ["e"], "after a change of size and adding")
        s.drop("s_map_del", m)
        s.drop("s_map_del", c)
        s.end()
    for n in (0, 1, 2, 3, 5):
        for octets in (1, 4):
            grow(rep, rule, n, octets, n % 2)

    @guarded
    def nearest(rep, rule, table, octets):
        def dist(p, st, a, k):
            x = [q for q in a[1:] if q.base == "heapquery"]
            y = [q for q in a[1:] if q.base != "heapquery"]
            if len(x) != 1 or not a[0].is_const() or a[0].cval() != octets or not y[0].off.is_const() or y[0].off.cval() % octets or not x[0].off.same(0):
                st.events.append(("odd", [str(v) for v in a]))
                return p.K(0)
            guard(p, st, y[0], octets, "read")
            return p.K(table[int(y[0].off.cval()) // octets])
        s = Cxx(rep, rule, "nearest of distances %s, %d bytes" % (table, octets), given={"nx_brief_extractor_descriptor_distance": dist})
        m = s.keep(s.call("s_map_new", octets))
        d = s.buf(octets)
        for k in range(len(table)):
            put_desc(s, d, octets, "d%d" % k)
            s.call("s_map_add", m, s.V("id%d" % k), d)
        q, i, c = s.buf(octets, "heapquery"), s.buf(8), s.buf(4)
        s.call("s_map_nn", m, q, i, c)
        odd = [e for e in s.events if e[0] == "odd"]
        s.ok(not odd, "distances are between the query and a stored descriptor", "%s" % odd[:1])
        gi, gc = s.load(i, 0, 8, "i64"), s.load(c, 0, 4, "float")
        best = min(table)
        s.ok(eq(s, gc, best), "cost", "is %s" % gc)
        s.ok(eq(s, gi, s.V("id%d" % table.index(best))), "identity", "is %s" % gi)
        s.drop("s_map_del", m)
        s.end()
    for t in [(3,)] + list(itertools.product((1, 2, 3), repeat=3)) + [(5, 4, 3, 2, 1), (1, 2, 3, 4, 5), (0, 0), (9, 8)]:
        nearest(rep, rule, t, 1 if len(t) == 3 else 4)

    @guarded
    def by_id(rep, rule, ids, want):
        s = Cxx(rep, rule, "search for id %d among %s" % (want, ids))
        m = s.keep(s.call("s_map_new", 3))
        d = s.buf(3)
        put_desc(s, d, 3, "d")
        for i in ids:
            s.call("s_map_add", m, i, d)
        r = s.call("s_map_by_id", m, want)
        if want in ids:
            w = s.call("s_map_desc", m, ids.index(want))
            s.ok(eq(s, r, w), "descriptor found", "is %s, not %s" % (r, w))
        else:
            s.ok(eq(s, r, None), "nothing found", "is %s" % r)
        s.drop("s_map_del", m)
        s.end()
    for ids, w in (((), 1), ((1,), 1), ((1,), 2), ((3, 1, 2), 3), ((3, 1, 2), 1), ((3, 1, 2), 2), ((3, 1, 2), 0), ((4, 5, 4, 5), 5), ((1 << 40, 7), 1 << 40), (((1 << 40) + 7, 7), 7)):
        by_id(rep, rule, ids, w)


# ---------------------------------------------------------------- BRIEF
def sized(p, st, r, a):
    set_field(p, st, r.base, "NXBriefExtractor", "n_octets", a[0])
    set_field(p, st, r.base, "NXBriefExtractor", "radius", a[1])


def key(s, q, k, tag, at=0):
    def put(p, st):
        sz = key_size(p)
        for f in ("x", "y", "xs", "ys", "level", "scale", "sigma", "score", "ori", "id"):
            off, size = field_off(p, "NXKeypoint", f)
            st.mem[q.base] = Entry("store", p.K(sz * k + off), size, p.V("%s.%s" % (tag, f)), st.mem.get(q.base))
    s.todo.append(put)


def key_size(p):
    n = max(e[1] + e[2] for e in p.mod.di[("struct", "NXKeypoint")]["els"])
    return (n + 7) // 8 * 8


def brief(rep):
    rule = "C++ extractor"

    @guarded
    def basic(rep, rule, r):
        s = Cxx(rep, rule, "extractor of radius %d" % r, made={"nx_brief_extractor_new": sized, "nx_image_pyr_builder_build0": levels_of(2)}, given={"nx_brief_extractor_check_point_pyr": 1})
        b = s.keep(s.call("s_be_new", 32, r))
        ev = [e for e in s.events if e[0] == "api"]
        h = ev[0][3]
        g = s.calls_made()
        seed = lambda g, h: g[1][2][1] if len(g) == 2 and g[1][1] == "nx_brief_extractor_randomize_with_seed" and eq(s, g[1][2][0], h) and g[1][2][1].is_const() else None
        sd = seed(g, h)
        s.ok(sd is not None and eq(s, g[0][2][0], 32) and eq(s, g[0][2][1], r), "made with a fixed seed", "%s" % [(e[1], [str(x) for x in e[2]]) for e in g])
        q = s.call("s_be_resize", b, 32, r)
        s.ok(eq(s, q, b), "resize returns the extractor", "returns %s" % q)
        g = s.calls_made()
        h2 = g[0][3] if g else None
        s2 = seed(g, h2) if g else None
        s.ok(sd is not None and s2 is not None and sd.same(s2), "resized with the same seed", "%s" % [(e[1], [str(x) for x in e[2]]) for e in g])
        s.ok(s.frees("nx_brief_extractor_free") == 1, "the old extractor is released", "%d times" % s.frees("nx_brief_extractor_free"))
        s.call("s_be_seed", b, s.V("seed"))
        s.asked([("nx_brief_extractor_randomize_with_seed", [h2, s.V("seed")])], "seed")
        s.call("s_be_random", b)
        s.asked([("nx_brief_extractor_randomize", [h2])], "random")
        im = s.keep(s.call("s_img_new"))
        p = s.keep(s.call("s_pyr_fast", im, 2, s.V("sg")))
        np = s.call("s_pyr_nx", p)
        d = s.buf(32)
        k = s.buf(64)
        key(s, k, 0, "k")
        V = s.V
        s.skip()
        x = s.call("s_be_check", b, p, V("x"), V("y"), V("l"))
        s.asked([("nx_brief_extractor_check_point_pyr", [h2, np, V("x"), V("y"), V("l")])], "check")
        s.ok(eq(s, x, 1), "result of check", "is %s" % x)
        x = s.call("s_be_check_key", b, p, k)
        s.asked([("nx_brief_extractor_check_point_pyr", [h2, np, V("k.x"), V("k.y"), V("k.level")])], "check of a keypoint")
        s.ok(eq(s, x, 1), "result of the check of a keypoint", "is %s" % x)
        s.call("s_be_compute", b, p, V("x"), V("y"), V("l"), d)
        s.asked([("nx_brief_extractor_compute_pyr", [h2, np, V("x"), V("y"), V("l"), d])], "compute")
        s.call("s_be_compute_key", b, p, k, d)
        s.asked([("nx_brief_extractor_compute_pyr", [h2, np, V("k.x"), V("k.y"), V("k.level"), d])], "compute for a keypoint")
        e = s.buf(32)
        x = s.call("s_be_distance", V("n"), d, e)
        s.asked([("nx_brief_extractor_descriptor_distance", [V("n"), d, e])], "distance")
        s.ok(eq(s, x, V("nx_brief_extractor_descriptor_distance#0")), "result of distance", "is %s" % x)
        s.drop("s_be_del", b)
        s.drop("s_pyr_del", p)
        s.drop("s_img_del", im)
        s.end()
    for r in (16, 24, 9):
        basic(rep, rule, r)

    @guarded
    def many(rep, rule, good):
        O = 3
        which = []

        def check(p, st, a, n):
            for k in range(len(good)):
                if a[2].same(p.V("k%d.x" % k)) and a[3].same(p.V("k%d.y" % k)) and a[4].same(p.V("k%d.level" % k)):
                    return p.K(good[k])
            st.events.append(("odd", [str(x) for x in a]))
            return p.K(0)

        def compute(p, st, a, n):
            guard(p, st, a[5], O, "write")
            for k in range(len(good)):
                if a[2].same(p.V("k%d.x" % k)):
                    if not good[k]:
                        st.events.append(("odd", ["descriptor of a keypoint too close to the border"]))
                    for j in range(O):
                        st.mem[a[5].base] = Entry("store", a[5].off + j, 1, p.V("d%d.%d" % (k, j)), st.mem.get(a[5].base))
        s = Cxx(rep, rule, "descriptors of keypoints %s" % (good,), made={"nx_brief_extractor_new": sized, "nx_image_pyr_builder_build0": levels_of(2)},
                given={"nx_brief_extractor_check_point_pyr": check, "nx_brief_extractor_compute_pyr": compute})
        b = s.keep(s.call("s_be_new", O, 24))
        im = s.keep(s.call("s_img_new"))
        p = s.keep(s.call("s_pyr_fast", im, 2, s.V("sg")))
        m = s.keep(s.call("s_map_new", O))
        n = len(good)
        q = s.buf(64 * max(n, 1))
        for k in range(n):
            key(s, q, k, "k%d" % k)
        s.call("s_be_compute_keys", b, p, n, q, m)
        odd = [e for e in s.events if e[0] == "odd"]
        s.ok(not odd, "every keypoint is checked first", "%s" % odd[:1])
        want = [k for k in range(n) if good[k]]
        s.ok(eq(s, s.call("s_map_size", m), len(want)), "number of descriptors", "is not %d" % len(want))
        for j, k in enumerate(want):
            r = s.call("s_map_id", m, j)
            s.ok(eq(s, r, s.V("k%d.id" % k)), "identity of descriptor %d" % j, "is %s" % r)
            d = s.call("s_map_desc", m, j)
            got = [s.load(d, i, 1, "i8") for i in range(O)]
            s.ok(all(eq(s, g, s.V("d%d.%d" % (k, i))) for i, g in enumerate(got)), "descriptor %d" % j, "is %s" % [str(g) for g in got])
        for f, x in (("s_be_del", b), ("s_pyr_del", p), ("s_img_del", im), ("s_map_del", m)):
            s.drop(f, x)
        s.end()
    for good in [()] + [g for n in (1, 2, 3) for g in itertools.product((0, 1), repeat=n)]:
        many(rep, rule, good)


# ---------------------------------------------------------------- Harris
def harris(rep):
    rule = "C++ detector"

    def det(counts):
        def f(p, st, a, n):
            c = counts[n]
            if not a[0].is_const():
                raise Unsupported("room for keypoints")
            c = min(c, int(a[0].cval()))
            sz = key_size(p)
            guard(p, st, a[1], int(a[0].cval()) * sz, "write")
            for k in range(c):
                for fl in ("x", "y", "xs", "ys", "level", "scale", "sigma", "score", "ori", "id"):
                    off, size = field_off(p, "NXKeypoint", fl)
                    st.mem[a[1].base] = Entry("store", a[1].off + (sz * k + off), size, p.V("k%d.%d.%s" % (n, k, fl)), st.mem.get(a[1].base))
            return p.K(c)
        return f

    def stages(s, e, image, what):
        """derivatives, score and detection of one image"""
        names = [x[1] for x in e]
        if not s.ok(names == ["nx_harris_deriv_images", "nx_harris_score_image", "nx_harris_detect_keypoints"], "stages" + what, "are %s" % names):
            return None
        d, c, k = (x[2] for x in e)
        s.ok(eq(s, d[3], image), "the image" + what, "is %s" % d[3])
        s.ok(all(eq(s, x, y) for x, y in zip(d[:3], c[1:4])), "the score is that of the derivatives" + what, "%s and %s" % ([str(x) for x in d[:3]], [str(x) for x in c[1:4]]))
        own = {x.base for x in d[:3]} | {c[0].base}
        s.ok(len(own) == 4 and image.base not in own, "intermediate images are distinct" + what, "%s" % own)
        s.ok(eq(s, k[2], c[0]), "keypoints are those of the score" + what, "of %s" % k[2])
        return k[3]

    def number(x):
        return float(x.cval()) if isinstance(x, R) and x.is_const() else None

    @guarded
    def single(rep, rule, counts, limit, adapt):
        s = Cxx(rep, rule, "detection of %s keypoints, at most %d%s" % (counts, limit, ", adapting" if adapt else ""), given={"nx_harris_detect_keypoints": det(counts)})
        s.laps = 400
        d = s.keep(s.call("s_hd_new"))
        im = s.keep(s.call("s_img_new"))
        h = nx(s, im)
        ks = s.keep(s.call("s_keys_new"))
        last = None
        for n, c in enumerate(counts):
            s.skip()
            r = s.call("s_hd_detect", d, im, ks, limit, adapt)
            e = s.calls_made()
            th = stages(s, e, h, " of run %d" % n)
            found = number(e[-1][3]) if e else None
            if found is None:
                break
            want = min(int(found), limit)
            s.ok(c <= limit or found >= limit, "room for as many keypoints as allowed", "%s found" % found)
            s.ok(eq(s, r, want), "number of keypoints of run %d" % n, "is %s, not %d" % (r, want))
            s.ok(eq(s, s.call("s_keys_size", ks), want), "size of the list of run %d" % n, "differs")
            for k in sorted({0, want // 2, want - 1} & set(range(want))):
                q = s.call("s_keys_at", ks, k)
                got = [s.c.p._load(s.st, s.mem.get(q.base), q.base, q.off + field_off(s.c.p, "NXKeypoint", f)[0], 4, "i32") for f in ("x", "y", "level")]
                s.ok(all(eq(s, g, s.V("k%d.%d.%s" % (n, k, f))) for g, f in zip(got, ("x", "y", "level"))), "keypoint %d of run %d" % (k, n), "is %s" % [str(g) for g in got])
            th = number(th)
            if th is None:
                raise Unsupported("threshold")
            if last is not None:
                was, f = last
                s.ok(th == was if not adapt else th > was if f > limit else th < was if f < 0.9 * limit else th <= was, "threshold after %d keypoints" % f, "goes from %g to %g" % (was, th))
            last = (th, found)
        for f, x in (("s_keys_del", ks), ("s_hd_del", d), ("s_img_del", im)):
            s.drop(f, x)
        s.end()
    for adapt in (0, 1):
        single(rep, rule, (0, 3, 2, 7, 1, 2), 2, adapt)
        single(rep, rule, (1, 1, 1), 1, adapt)
    single(rep, rule, (10, 11, 12, 15, 18, 9, 8, 5, 4, 0, 20, 10), 10, 1)

    @guarded
    def several(rep, rule, counts, levels, limit, adapt):
        s = Cxx(rep, rule, "detection of %s keypoints on %d levels, at most %d%s" % (counts, levels, limit, ", adapting" if adapt else ""), given={"nx_harris_detect_keypoints": det(counts)},
                made={"nx_image_pyr_builder_build0": levels_of(3)})
        s.laps = 400
        d = s.keep(s.call("s_hd_new"))
        im = s.keep(s.call("s_img_new"))
        p = s.keep(s.call("s_pyr_fast", im, 3, s.V("sg")))
        ks = s.keep(s.call("s_keys_new"))
        s.skip()
        r = s.call("s_hd_pyr", d, p, ks, levels, limit, adapt)
        e = s.calls_made()
        keys, seen, ths = [], [], []
        for n in range(0, len(e), 3):
            im_ = e[n][2][3] if len(e[n][2]) == 5 else None
            l = next((k for k in range(3) if isinstance(im_, Ptr) and im_.base == "levelimg%d" % k), None)
            if not s.ok(l is not None and l < levels and l not in seen, "image of search %d" % (n // 3), "is %s" % im_):
                return
            seen.append(l)
            ths.append(stages(s, e[n:n + 3], Ptr("levelimg%d" % l, s.K(0)), " of level %d" % l))
            c = number(e[n + 2][3])
            keys += [(n // 3, k, l) for k in range(int(c))]
        s.ok(len(seen) == levels or len(keys) >= limit, "every level is searched", "levels %s" % seen)
        s.ok(all(t is not None and t.same(ths[0]) for t in ths), "one threshold for all levels", "%s" % [str(t) for t in ths])
        want = min(len(keys), limit)
        s.ok(eq(s, r, want), "number of keypoints", "is %s, not %d" % (r, want))
        s.ok(eq(s, s.call("s_keys_size", ks), want), "size of the list", "differs")
        for k, (n, j, l) in enumerate(keys[:want]):
            q = s.call("s_keys_at", ks, k)
            ld = lambda f, ty: s.c.p._load(s.st, s.mem.get(q.base), q.base, q.off + field_off(s.c.p, "NXKeypoint", f)[0], field_off(s.c.p, "NXKeypoint", f)[1], ty)
            got = [ld("x", "i32"), ld("y", "i32"), ld("level", "i32"), ld("scale", "float"), ld("sigma", "float"), ld("id", "i64")]
            exp = [s.V("k%d.%d.x" % (n, j)), s.V("k%d.%d.y" % (n, j)), s.K(l), s.V("lscale%d" % l), s.V("lsigma%d" % l), s.K(k)]
            s.ok(all(eq(s, g, w) for g, w in zip(got, exp)), "keypoint %d" % k, "is %s, not %s" % ([str(g) for g in got], [str(w) for w in exp]))
        s.skip()
        s.call("s_hd_pyr", d, p, ks, 1, limit, 0)
        e = s.calls_made()
        th = number(e[2][2][3]) if len(e) == 3 else None
        was = number(ths[0]) if ths else None
        if th is None or was is None:
            raise Unsupported("threshold")
        f = len(keys)
        s.ok(th == was if not adapt else th > was if f > limit else th < was if f < 0.9 * limit else th <= was, "threshold after %d keypoints" % f, "goes from %g to %g" % (was, th))
        for f, x in (("s_keys_del", ks), ("s_hd_del", d), ("s_pyr_del", p), ("s_img_del", im)):
            s.drop(f, x)
        s.end()
    for counts, levels, limit, adapt in (((1, 1, 1, 0), 3, 2, 0), ((2, 0, 1, 0), 3, 2, 1), ((0, 0, 0, 0), 3, 2, 1), ((9, 9, 9, 0), 3, 2, 1), ((1, 9, 9, 0), 3, 3, 0), ((2, 2, 0), 2, 4, 1), ((1, 0), 1, 3, 1), ((3, 1, 2, 0), 3, 3, 0)):
        several(rep, rule, counts + (0,), levels, limit, adapt)


# ---------------------------------------------------------------- annotator
class Pen:
    """what ends up on the canvas: strokes (colour, width, edges, circles)"""
    def __init__(self, s, evs, gc):
        self.strokes, self.odd = [], None
        col, wid, edges, circles, at, start = None, None, [], [], None, None
        for e in evs:
            n, a = e[1], e[2]
            if not n.startswith("nx_gc_") or n in ("nx_gc_new", "nx_gc_free"):
                continue
            if not eq(s, a[0], gc):
                self.odd = "%s on another context" % n
                return
            a = a[1:]
            if n == "nx_gc_set_color":
                col = a
            elif n == "nx_gc_set_line_width":
                wid = a[0]
            elif n == "nx_gc_new_path":
                edges, circles, at = [], [], None
            elif n == "nx_gc_move_to":
                at = (a[0], a[1])
            elif n == "nx_gc_rel_move_to" and at:
                at = (at[0] + a[0], at[1] + a[1])
            elif n == "nx_gc_line_to":
                if at:
                    edges.append((at, (a[0], a[1])))
                at = (a[0], a[1])
            elif n == "nx_gc_rel_line_to" and at:
                to = (at[0] + a[0], at[1] + a[1])
                edges.append((at, to))
                at = to
            elif n == "nx_gc_line":
                edges.append(((a[0], a[1]), (a[2], a[3])))
                at = (a[2], a[3])
            elif n == "nx_gc_rectangle":
                x, y, w, h = a
                c = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]
                edges += list(zip(c, c[1:] + c[:1]))
                at = (x, y)
            elif n == "nx_gc_circle":
                circles.append(tuple(a))
                at = None
            elif n == "nx_gc_stroke":
                if edges or circles:
                    self.strokes.append((col, wid, edges, circles))
                edges, circles, at = [], [], None
            elif n in ("nx_gc_flush",):
                pass
            else:
                self.odd = n
                return
        if edges or circles:
            self.odd = "a shape that is never drawn"


def same_pt(p, q):
    return p[0].same(q[0]) and p[1].same(q[1])


def same_strokes(s, got, want):
    if len(got) != len(want):
        return "%d strokes, not %d" % (len(got), len(want))
    for (c, w, e, r), (c2, w2, e2, r2) in zip(got, want):
        if c is None or not all(eq(s, x, y) for x, y in zip(c, c2)):
            return "colour %s" % [str(x) for x in c or ()]
        if w is None or w2 is not None and not eq(s, w, w2):
            return "width %s" % w
        left = list(e2)
        for a, b in e:
            k = next((k for k, (x, y) in enumerate(left) if same_pt(a, x) and same_pt(b, y) or same_pt(a, y) and same_pt(b, x)), None)
            if k is None:
                return "edge from %s to %s" % ([str(x) for x in a], [str(x) for x in b])
            left.pop(k)
        if left:
            return "edge from %s to %s missing" % ([str(x) for x in left[0][0]], [str(x) for x in left[0][1]])
        if len(r) != len(r2) or not all(all(x.same(y) for x, y in zip(p, q)) for p, q in zip(r, r2)):
            return "circles %s" % [[str(x) for x in p] for p in r]
    return None


def mark(s, k, x, y, z):
    """edges and circles of a mark"""
    r = z / 2
    if k == 0:
        return [], [(x, y, r)]
    if k == 1:
        c = [(x - r, y - r), (x + r, y - r), (x + r, y + r), (x - r, y + r)]
    elif k == 2:
        c = [(x, y - r), (x + r, y), (x, y + r), (x - r, y)]
    elif k == 3:
        return [((x, y - r), (x, y + r)), ((x - r, y), (x + r, y))], []
    elif k == 4:
        return [((x - r, y - r), (x + r, y + r)), ((x + r, y - r), (x - r, y + r))], []
    else:
        return [], []
    return list(zip(c, c[1:] + c[:1])), []


def marks(rep):
    rule = "C++ annotator"

    def new(inst):
        s = Cxx(rep, rule, inst)
        im = s.keep(s.call("s_img_new"))
        a = s.keep(s.call("s_ia_new", im))
        gc = [e for e in s.events if e[0] == "api" and e[1] == "nx_gc_new"]
        if len(gc) != 1:
            raise Unsupported("context of the annotator")
        return s, im, a, gc[0]

    def over(s, im, a):
        s.drop("s_ia_del", a)
        s.drop("s_img_del", im)
        s.end()

    @guarded
    def canvas(rep, rule):
        s, im, a, gc = new("canvas")
        h = nx(s, im)
        for n in range(2):
            e = s.calls_made()
            cp = [x for x in e if x[1] == "nx_image_copy"]
            cv = [x for x in e if x[1] == "nx_image_convert_type"]
            g = [x for x in e if x[1] == "nx_gc_new"]
            ok = len(cp) == len(cv) == len(g) == 1 and eq(s, cp[0][2][1], h) and all(eq(s, x[2][0], cp[0][2][0]) for x in cv + g) and cp[0][2][0].base != h.base and eq(s, cv[0][2][1], en("NXImageType", "NX_IMAGE_RGBA"))
            s.ok(ok and e.index(cp[0]) < e.index(cv[0]) < e.index(g[0]), "a colour copy of the image%s" % (" set later" * n), "%s" % [(x[1], [str(y) for y in x[2]]) for x in e])
            c = s.call("s_ia_canvas", a)
            e = s.calls_made()
            s.ok([x[1] for x in e] == ["nx_gc_flush"] and eq(s, e[0][2][0], g[0][3] if g else None), "drawing is finished before the canvas is looked at", "%s" % [x[1] for x in e])
            s.ok(eq(s, nx(s, c), cp[0][2][0] if cp else None), "the canvas is what is drawn on", "is not")
            if not n:
                im2 = s.keep(s.call("s_img_new"))
                h = nx(s, im2)
                s.skip()
                s.call("s_ia_set", a, im2)
        s.drop("s_img_del", im2)
        over(s, im, a)
    canvas(rep, rule)

    def show(s, gc, want, what):
        p = Pen(s, s.calls_made(), gc[3])
        e = p.odd or same_strokes(s, p.strokes, want)
        s.ok(e is None, what, "drawn: %s" % e)

    @guarded
    def shapes(rep, rule):
        s, im, a, gc = new("marks")
        V = s.V
        C = [V(c) for c in ("r", "g", "b", "al")]
        s.assume(lambda p: [(p.V("z"), POS)])
        for k in range(6):
            s.skip()
            s.call("s_ia_mark", a, k, V("x"), V("y"), V("z"), *C)
            e, r = mark(s, k, V("x"), V("y"), V("z"))
            show(s, gc, [(C, None, e, r)] if e or r else [], "mark %d" % k)
            s.call("s_ia_edge", a, V("x"), V("y"), V("u"), V("v"), V("w"), *(C + [k, V("z")]))
            want = [(C, V("w"), [((V("x"), V("y")), (V("u"), V("v")))], [])]
            for px, py in (("x", "y"), ("u", "v")):
                e, r = mark(s, k, V(px), V(py), V("z"))
                if e or r:
                    want.append((C, None, e, r))
            show(s, gc, want, "edge with marks %d" % k)
        s.call("s_ia_roi", a, V("x"), V("y"), V("w"), V("h"), V("lw"), *C)
        c = [(V("x"), V("y")), (V("x") + V("w"), V("y")), (V("x") + V("w"), V("y") + V("h")), (V("x"), V("y") + V("h"))]
        show(s, gc, [(C, V("lw"), list(zip(c, c[1:] + c[:1])), [])], "region")
        over(s, im, a)
    shapes(rep, rule)

    @guarded
    def keypoints(rep, rule, single, levels):
        COL = {0: (1, 0, 0), 1: (0, 0, 1), 2: (0, 1, 0), 3: (1, 1, 0), 4: (1, 0, 1), 5: (0, 1, 1), 6: (1, 1, 1)}
        s, im, a, gc = new("keypoints of levels %s%s" % (levels, ", one colour" if single else ""))
        n = len(levels)
        q = s.buf(64 * max(1, n))
        for k in range(n):
            key(s, q, k, "k%d" % k)
        def lev(p, st):
            for k, l in enumerate(levels):
                st.mem[q.base] = Entry("store", p.K(key_size(p) * k + field_off(p, "NXKeypoint", "level")[0]), 4, p.K(l), st.mem.get(q.base))
        s.todo.append(lev)
        s.skip()
        s.call("s_ia_keys", a, n, q, single)
        p = Pen(s, s.calls_made(), gc[3])
        if s.ok(p.odd is None and len(p.strokes) == n, "every keypoint is drawn", "%s, %d strokes" % (p.odd, len(p.strokes))):
            cols = []
            for k, (c, w, e, r) in enumerate(p.strokes):
                good = not e and len(r) == 1 and all(v.same(s.V("k%d.%s" % (k, f)) * s.V("k%d.scale" % k)) for v, f in zip(r[0], ("xs", "ys"))) and r[0][2].same(s.V("k%d.sigma" % k) * s.V("k%d.scale" % k))
                s.ok(good, "circle of keypoint %d" % k, "%s" % [[str(v) for v in x] for x in r])
                want = (1, 1, 1) if single else COL.get(levels[k])
                if want:
                    s.ok(all(eq(s, x, y) for x, y in zip(c, want + (1,))), "colour of keypoint %d" % k, "is %s" % [str(x) for x in c])
        over(s, im, a)
    for single in (0, 1):
        for levels in ((), (0, 1, 2), (3, 4, 5), (6, 7), (6,)):
            keypoints(rep, rule, single, levels)


REAL = ("nx_image_alloc", "nx_image_free", "nx_image_resize", "nx_image_copy", "nx_image_convert_type", "nx_image_set_zero", "nx_image_release", "nx_image_wrap")


def match_image(rep):
    rule = "C++ annotator"

    @guarded
    def one(rep, rule, l, r, n, only):
        s = Cxx(rep, rule, "match image of %dx%d and %dx%d, %d matches%s" % (l + r + (n, ", inliers only" if only else "")), real=REAL)
        s.laps = 400
        ims = []
        for t, (w, h) in zip("LR", (l, r)):
            q = s.keep(s.call("s_img_new"))
            s.call("s_img_create_rgba", q, w, h, 0)
            d, st_ = s.call("s_img_data_uc", q), s.call("s_img_stride", q)
            def put(p, st, d=d, st_=st_, t=t, w=w, h=h):
                for y in range(h):
                    for k in range(4 * w):
                        v = p.V("%s%d.%d" % (t, y, k))
                        st.mem[d.base] = Entry("store", d.off + st_ * y + k, 1, v, st.mem.get(d.base))
            s.todo.append(put)
            ims.append(q)
        c = s.keep(s.call("s_corr_new"))
        inl = [k % 2 for k in range(n)]
        for _ in add_matches(s, c, n, inl=inl):
            pass
        s.skip()
        a = s.keep(s.call("s_ia_match", ims[0], ims[1], c, only))
        ev = s.calls_made()
        W, H = l[0] + r[0], max(l[1], r[1])
        s.ok(eq(s, s.call("s_ia_width", a), W) and eq(s, s.call("s_ia_height", a), H), "size", "differs")
        cv = s.call("s_ia_canvas", a)
        d, rs = s.call("s_img_data_uc", cv), s.call("s_img_stride", cv)
        bad = None
        for y in range(H):
            for k in range(4 * W):
                side, kk, hh = ("L", k, l[1]) if k < 4 * l[0] else ("R", k - 4 * l[0], r[1])
                want = s.V("%s%d.%d" % (side, y, kk)) if y < hh else s.K(0)
                got = s.load(d, rs * y + k, 1, "i8")
                if not eq(s, got, want):
                    bad = bad or "byte %d of row %d is %s, not %s" % (k, y, got, want)
        s.ok(bad is None, "the images side by side", bad or "")
        gcs = [e for e in ev if e[1] == "nx_gc_new"]
        if not s.ok(bool(gcs), "the canvas is drawn on", "no context"):
            return
        p = Pen(s, ev, gcs[-1][3])
        RED, GREEN, lw = [1, 0, 0, 1], [0, 1, 0, 1], l[0]
        want = []
        for k in range(n):
            if only and not inl[k]:
                continue
            x, y, xp, yp = (s.V("%s%d" % (v, k)) for v in ("x", "y", "xp", "yp"))
            want += [(RED, None, [((x, y), (xp, yp))], []), (GREEN, None, [((x + lw, y), (xp + lw, yp))], [])]
            want += [(RED, None) + mark(s, 2, x, y, s.K(10)), (GREEN, None) + mark(s, 2, xp + lw, yp, s.K(10))]
        # the order of the strokes of a match is left open
        e = p.odd
        if not e and len(p.strokes) != len(want):
            e = "%d strokes, not %d" % (len(p.strokes), len(want))
        if not e:
            left = list(want)
            for st_ in p.strokes:
                k = next((k for k, w in enumerate(left) if same_strokes(s, [st_], [w]) is None), None)
                if k is None:
                    e = "%s" % [[str(v) for v in q] for ed in st_[2] for q in ed]
                    break
                left.pop(k)
        s.ok(e is None, "matches", "drawn: %s" % e)
        for f, x in (("s_ia_del", a), ("s_corr_del", c), ("s_img_del", ims[0]), ("s_img_del", ims[1])):
            s.drop(f, x)
        s.end()
    for l, r in (((2, 1), (1, 2)), ((1, 2), (2, 1)), ((2, 2), (1, 2))):
        for n, only in ((0, 0), (2, 0), (3, 1)):
            one(rep, rule, l, r, n, only)
