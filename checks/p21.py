"""Datasets and the file system: sequences hold what their files say, frames come from the right file, missing parts are noticed."""
from vlib.heap import *
from vlib.pix import get_field, field_off
from checks.p15 import isval
import itertools

LEVEL = "bounded"
API = ["nx_kitti_slam_new", "nx_kitti_slam_free", "nx_kitti_slam_sequence_new", "nx_kitti_slam_sequence_free", "nx_kitti_slam_sequence_xload_frame",
       "nx_temple_color_128_sequence_new", "nx_temple_color_128_sequence_free", "nx_temple_color_128_sequence_xload_frame",
       "nx_vgg_affine_sequence_new", "nx_vgg_affine_sequence_free", "nx_vgg_affine_sequence_xload_frame",
       "nx_check_dir", "nx_check_file", "nx_ensure_dir", "nx_scan_dir", "nx_string_array_free", "nx_string_array_get", "nx_string_array_size"]


def run(rep):
    for part in (filesystem, vgg, temple, kitti):
        try:
            part(rep)
        except Unsupported as e:
            rep.undecide(part.__name__, e)
    for r, n in (("file system", 30), ("VGG sequence", 60), ("Temple sequence", 60), ("KITTI sequence", 100)):
        rep.need(r, n)


_m = {}


def mod():
    if "m" not in _m:
        _m["m"] = kernels([(f, f, None) for f in API], name="p21", opaque=["nx_image_load", "nx_image_xload"])
    return _m["m"]


class Num:
    """a number in a file: its own symbol"""
    def __init__(self, name, fmt="%.17g"):
        self.name, self.fmt = name, fmt


def path(p, st, q):
    c = cstr(p, st, q)
    if not all(x.is_const() for x in c):
        raise Unsupported("path %s" % [x.show() for x in c])
    return "".join(chr(int(x.cval()) % 256) for x in c)


class Disk(Session):
    """dirs: set of paths; files: path -> list of text pieces and numbers; img: frame paths that load"""
    inits, laps = True, 3000

    def __init__(self, rep, rule, inst, dirs=(), files=None, img=(), closebad=()):
        self.dirs, self.files, self.img, self.closebad = set(dirs), dict(files or {}), set(img), set(closebad)
        ops = {"fopen": self._open, "opendir": self._opendir, "closedir": self._closedir, "mkdir": self._mkdir, "scandir": self._scandir,
               "nx_image_load": self._load, "nx_image_xload": self._xload}
        super().__init__(rep, rule, mod(), inst, opaque=ops)

    def _open(self, p, i, st, a):
        m = gtext(p, a[1])
        f = path(p, st, a[0])
        if m is None:
            raise Unsupported("mode of fopen")
        if f not in self.files or "w" in m or "a" in m:
            if "w" in m or "a" in m:
                st.events.append(("made", f))
            return Ptr("null", p.K(0))
        s = "file%d:%s" % (sum(1 for e in st.events if e[0] == "open"), f)
        ch = []
        for x in self.files[f]:
            if not isinstance(x, Num):
                ch += [p.K(b) for b in x.encode()]
            elif len(self.files[f]) < 200:
                ch += render(p, st, x.fmt, [p.V(x.name)])
            else:
                v = p.V("fmt(%s|%s)" % (x.fmt, x.name))
                p.ctx.__dict__.setdefault("numbers", {})[v.show()] = (x.fmt, p.V(x.name))
                ch.append(v)
        give(p, st, s, ch)
        st.events.append(("open", s, m))
        p.exists.add(s)
        return Ptr(s, p.K(0))

    def _opendir(self, p, i, st, a):
        f = path(p, st, a[0])
        if f not in self.dirs:
            return Ptr("null", p.K(0))
        s = "dir%d:%s" % (sum(1 for e in st.events if e[0] == "open"), f)
        st.events.append(("open", s, "d"))
        p.exists.add(s)
        return Ptr(s, p.K(0))

    def _closedir(self, p, i, st, a):
        s = sname(a[0])
        live(p, st, s)
        st.events.append(("closed", s))
        return p.K(-1 if s.split(":", 1)[-1] in self.closebad else 0)

    def _mkdir(self, p, i, st, a):
        f = path(p, st, a[0])
        st.events.append(("mkdir", f, a[1]))
        return p.K(0 if f not in self.closebad else -1)

    def _scandir(self, p, i, st, a):
        f = path(p, st, a[0])
        if f not in self.dirs:
            return p.K(-1)
        names = self.files.get(f, [])
        if not (isinstance(a[2], Ptr) and a[2].base == "null") and not (isinstance(a[2], R) and a[2].is_const()):
            raise Unsupported("filter of scandir")
        if "alphasort" not in str(getattr(a[3], "base", a[3])):
            names = list(reversed(names))
        off = field_off(p, "dirent", "d_name") if False else 19
        v = _blk(p, i, st, max(1, 8 * len(names)))
        for k, n in enumerate(names):
            e = _blk(p, i, st, off + len(n) + 1)
            for j, b in enumerate(list(n.encode()) + [0]):
                st.mem[e.base] = Entry("store", p.K(off + j), 1, p.K(b), st.mem.get(e.base))
            st.mem[v.base] = Entry("store", p.K(8 * k), 8, e, st.mem.get(v.base))
        guard(p, st, a[1], 8, "write")
        st.mem[a[1].base] = Entry("store", a[1].off, 8, v, st.mem.get(a[1].base))
        return p.K(len(names))

    def _load(self, p, i, st, a):
        f = path(p, st, a[1])
        ok = f in self.img
        st.events.append(("image", f, a[2], a[0], ok, False))
        return p.K(0 if ok else -1)

    def _xload(self, p, i, st, a):
        f = path(p, st, a[1])
        st.events.append(("image", f, a[2], a[0], f in self.img, True))
        return None

    def fork(self):
        s = Disk(self.rep, self.rule, self.inst, self.dirs, self.files, self.img, self.closebad)
        o = super().fork()
        for a in ("ctx", "mem", "cons", "events", "todo", "roots", "k", "faulty"):
            setattr(s, a, getattr(o, a))
        return s

    def field(self, q, ty, f, t):
        return get_field(self.c.p, self.st, q.base, ty, f, t)

    def at(self, q, j, size, ty):
        try:
            return self.load(q, j * size, size, ty)
        except Unsupported:
            return None

    def closed(self):
        for s in [e[1] for e in self.events if e[0] == "open"]:
            self.ok(sum(1 for e in self.events if e[0] == "closed" and e[1] == s) == 1, "%s is closed once" % s, "opened once, closed %d times" % sum(1 for e in self.events if e[0] == "closed" and e[1] == s))

    def same(self, got, want, what):
        g = [x.show() if isinstance(x, R) else str(x) for x in got]
        return self.ok(all(isinstance(x, R) and isval(x, w) for x, w in zip(got, want)) and len(got) == len(want), what, "is %s, not %s" % (g[:12], [w.show() for w in want][:12]))


def _blk(p, i, st, n):
    return malloc(p, i, st, [p.K(n)])


def session(f):
    def g(rep, rule, *a):
        try:
            f(rep, rule, *a)
        except Fatal as e:
            rep.check(False, rule, "%s" % (a,), str(e), "a legal call ends in a fatal error")
        except Unsupported as e:
            rep.undecide("%s %s" % (f.__name__, str(a)[:200]), e)
    return g


def filesystem(rep):
    rule = "file system"

    @session
    def check_dir(rep, rule, p, want, bad):
        s = Disk(rep, rule, "directory %s%s" % (p, " that cannot be closed" if bad else ""), {"/d", "rel"}, {"/f": ["x"]}, closebad={p} if bad else ())
        g = s.call("nx_check_dir", s.text(p))
        s.ok(isval(g, s.K(int(want))), "is %sthere" % ("" if want else "not "), "answers %s" % g)
        s.closed()
        s.end()
    for p, w in (("/d", 1), ("rel", 1), ("/f", 0), ("/none", 0), ("", 0), ("/d/d", 0)):
        check_dir(rep, rule, p, w, False)
    check_dir(rep, rule, "/d", 0, True)

    @session
    def check_file(rep, rule, p, want):
        s = Disk(rep, rule, "file %s" % p, {"/d"}, {"/f": ["x"], "e": []})
        g = s.call("nx_check_file", s.text(p))
        s.ok(isval(g, s.K(int(want))), "is %sthere" % ("" if want else "not "), "answers %s" % g)
        s.ok(not any(e[0] == "made" for e in s.events), "nothing is written", "the file is opened for writing")
        s.closed()
        s.end()
    for p, w in (("/f", 1), ("e", 1), ("/none", 0), ("", 0), ("/ff", 0)):
        check_file(rep, rule, p, w)

    @session
    def ensure(rep, rule, p, bad):
        s = Disk(rep, rule, "ensure %s" % p, {"/d"}, {}, closebad={p} if bad else ())
        t = s.text(p)
        if bad:
            rep.check(s.fatal("nx_ensure_dir", t), rule, s.inst + ": stops when it cannot be made", "nx_ensure_dir", "a missing directory that cannot be made is accepted")
            return
        s.call("nx_ensure_dir", t)
        mk = [e for e in s.events if e[0] == "mkdir"]
        if p == "/d":
            s.ok(not mk, "an existing directory is left alone", "mkdir is called")
        else:
            s.ok(len(mk) == 1 and mk[0][1] == p and mk[0][2].is_const() and int(mk[0][2].cval()) & 0o700 == 0o700, "is made once, for its owner to use", "calls %s" % (mk,))
        s.closed()
        s.end()
    ensure(rep, rule, "/d", False)
    ensure(rep, rule, "/new", False)
    ensure(rep, rule, "/bad", True)

    @session
    def scan(rep, rule, names):
        s = Disk(rep, rule, "directory of %s" % (names,), {"/d"}, {"/d": names})
        a = s.call("nx_scan_dir", s.text("/d"))
        s.roots.append(a.base)
        n = s.call("nx_string_array_size", a)
        s.ok(isval(n, s.K(len(names))), "number of entries", "is %s" % n)
        for k, w in enumerate(names):
            g = s.str(s.call("nx_string_array_get", a, k))
            s.ok(samestr(s, g, list(w.encode())), "entry %d" % k, "is %s, not %s" % (g, w))
        s.roots.remove(a.base)
        s.call("nx_string_array_free", a)
        s.end()
    for n in ([], ["."], [".", "..", "a.png"], [".", "..", "a", "bb", "ccc", "dddd"]):
        scan(rep, rule, n)
    s = Disk(rep, rule, "missing directory", set(), {})
    rep.check(s.fatal("nx_scan_dir", s.text("/d")), rule, "scan of a missing directory stops", "nx_scan_dir", "a missing directory is accepted")


def frames(s, fn, q, cases):
    """cases: (arguments before the image, mode or None, tried paths)"""
    im = s.buf(64)
    for a, mode, want in cases:
        k = len(s.events)
        s.call(fn, q, *a, im, *([] if mode is None else [mode]))
        ev = [e for e in s.events[k:] if e[0] == "image"]
        s.ok([e[1] for e in ev] == want, "frame %s file" % (a,), "loads %s, not %s" % ([e[1] for e in ev], want))
        s.ok(all(isinstance(e[3], Ptr) and e[3].base == im.base and isval(e[3].off, s.K(0)) for e in ev), "frame %s goes to the caller's image" % (a,), "goes elsewhere")
        s.ok(ev and ev[-1][5] and all(not e[5] for e in ev[:-1]) or bool(ev) and ev[-1][4], "frame %s failure is reported" % (a,), "a frame that cannot be loaded goes unnoticed")
        if mode is not None:
            s.ok(all(isval(e[2], s.K(mode)) for e in ev), "frame %s load mode" % (a,), "is %s" % [e[2] for e in ev])


VGG = ["bark", "bikes", "boat", "graf", "leuven", "trees", "ubc", "wall"]


def vgg(rep):
    rule = "VGG sequence"

    def disk(name, base="/b", sep=" "):
        files = {}
        for i in range(2, 7):
            c = []
            for r in range(3):
                for k in range(3):
                    c += [Num("h%d_%d_%d" % (i, r, k)), sep if k < 2 else "\n"]
            files["%s/%s/H1to%dp" % (base, name, i)] = c
        return {base, "%s/%s" % (base, name)}, files

    @session
    def good(rep, rule, name, base, sep):
        d, f = disk(name, base, sep)
        s = Disk(rep, rule, "%s in %s with separator %r" % (name, base, sep), d, f, img={"%s/%s/img%d.ppm" % (base, name, k) for k in (1, 2, 3)})
        b, n = s.text(base, "heapbase"), s.text(name, "heapname")
        q = s.call("nx_vgg_affine_sequence_new", b, n)
        s.roots.append(q.base)
        s.closed()
        T = "NXVGGAffineSequence"
        s.ok(isval(s.field(q, T, "length", "i32"), s.K(6)), "length", "is not 6")
        for fl, w in (("base_dir", base), ("name", name)):
            g = s.field(q, T, fl, "ptr")
            s.ok(isinstance(g, Ptr) and g.base not in ("heapbase", "heapname") and samestr(s, s.str(g), list(w.encode())), fl + " is a copy", "is %s" % (g,))
        h = s.field(q, T, "h", "ptr")
        for i in range(6):
            m = s.load(h, 8 * i, 8, "ptr")
            want = [s.K(int(r == k)) for k in range(3) for r in range(3)] if i == 0 else [s.V("h%d_%d_%d" % (i + 1, r, k)) for k in range(3) for r in range(3)]
            s.same([s.at(m, j, 8, "double") for j in range(9)], want, "homography %d" % i)
        im = lambda k, e: "%s/%s/img%d.%s" % (base, name, k, e)
        frames(s, "nx_vgg_affine_sequence_xload_frame", q, [((k,), 1, [im(k + 1, "ppm")]) for k in (0, 1, 2)] + [((k,), mo, [im(k + 1, "ppm"), im(k + 1, "pgm")]) for k, mo in ((3, 0), (4, -1), (5, 1))])
        s.roots.remove(q.base)
        s.call("nx_vgg_affine_sequence_free", q)
        s.end()
    for k, n in enumerate(VGG):
        good(rep, rule, n, "/b" if k % 2 else "data set", [" ", "   ", "\t"][k % 3])

    @session
    def bad(rep, rule, what):
        d, f = disk("graf")
        name = "graf"
        if what == "base":
            d.discard("/b")
        elif what == "dir":
            d.discard("/b/graf")
        elif what[0] == "file":
            del f["/b/graf/H1to%dp" % what[1]]
        elif what[0] == "short":
            f["/b/graf/H1to%dp" % what[1]] = f["/b/graf/H1to%dp" % what[1]][:what[2]]
        elif what[0] == "text":
            f["/b/graf/H1to%dp" % what[1]][4] = "x "
        elif what[0] == "name":
            name = what[1]
            d.add("/b/" + name)
            f = {k.replace("graf", name): v for k, v in f.items()}
        s = Disk(rep, rule, "missing part %s" % (what,), d, f)
        rep.check(s.fatal("nx_vgg_affine_sequence_new", s.text("/b"), s.text(name)), rule, s.inst + ": stops", "nx_vgg_affine_sequence_new", "an incomplete dataset is accepted")
    for w in ["base", "dir"] + [("file", k) for k in range(2, 7)] + [("short", 2, 0), ("short", 3, 8), ("short", 6, 15), ("short", 6, 16), ("text", 4)] + [("name", n) for n in ("", "gra", "grafx", "Graf", "other")]:
        bad(rep, rule, w)
    s = Disk(rep, rule, "no sequence")
    s.call("nx_vgg_affine_sequence_free", None)
    s.end()


ATTR = ["VI", "SV", "OCC", "DEF", "MB", "FM", "IPR", "OPR", "OV", "BC", "LR"]
NAMES = ["Airport_ce", "Ball_ce4", "Basketball", "Basketball_ce1", "David", "David3", "Cup_ce", "Yo-yos_ce3", "Walking2", "Face_ce2"]


def temple(rep):
    rule = "Temple sequence"

    def disk(name, first, n, attrs, base="/t"):
        at = lambda f: "%s/%s/%s_%s.txt" % (base, name, name, f)
        g = []
        for k in range(n):
            for j in range(4):
                g += [Num("g%d_%d" % (k, j)), "," if j < 3 else "\n"]
        return {base, base + "/" + name}, {at("frames"): ["%d,%d\n" % (first, first + n - 1)], at("att"): ["".join(a + "\n" for a in attrs)], at("gt"): g}

    @session
    def good(rep, rule, name, first, n, attrs):
        d, f = disk(name, first, n, attrs)
        s = Disk(rep, rule, "%s frames %d..%d attributes %s" % (name, first, first + n - 1, ",".join(attrs)), d, f)
        q = s.call("nx_temple_color_128_sequence_new", s.text("/t", "heapbase"), s.text(name, "heapname"))
        s.roots.append(q.base)
        s.closed()
        T = "NXTempleColor128Sequence"
        for fl, w in (("length", n), ("start_frame", first), ("end_frame", first + n - 1)):
            s.same([s.field(q, T, fl, "i32")], [s.K(w)], fl)
        s.same([s.field(q, T, "attributes", "i16")], [s.K(sum(1 << ATTR.index(a) for a in set(attrs)))], "attributes")
        for fl, w in (("base_dir", "/t"), ("name", name)):
            g = s.field(q, T, fl, "ptr")
            s.ok(isinstance(g, Ptr) and g.base not in ("heapbase", "heapname") and samestr(s, s.str(g), list(w.encode())), fl + " is a copy", "is %s" % (g,))
        gt = s.field(q, T, "ground_truth", "ptr")
        for k in range(n):
            m = s.load(gt, 8 * k, 8, "ptr")
            s.same([s.at(m, j, 4, "float") for j in range(4)], [s.V("g%d_%d" % (k, j)) for j in range(4)], "ground truth of frame %d" % k)
        frames(s, "nx_temple_color_128_sequence_xload_frame", q, [((first + k,), mo, ["/t/%s/img/%04d.jpg" % (name, first + k)]) for k, mo in zip(range(n), itertools.cycle((1, 0, -1)))])
        s.roots.remove(q.base)
        s.call("nx_temple_color_128_sequence_free", q)
        s.end()
    for k, a in enumerate(ATTR):
        good(rep, rule, NAMES[k % len(NAMES)], 1 + 7 * k, 1 + k % 3, [a])
    good(rep, rule, "Basketball", 1, 4, ATTR)
    good(rep, rule, "David3", 83, 2, list(reversed(ATTR)))
    good(rep, rule, "Torus", 1, 1, [])
    good(rep, rule, "Bolt", 9999, 2, ["OCC", "LR", "VI"])

    @session
    def bad(rep, rule, what):
        name = "Bolt"
        d, f = disk("Bolt", 3, 3, ["SV", "FM"])
        if what == "base":
            d.discard("/t")
        elif what == "dir":
            d.discard("/t/Bolt")
        elif what[0] == "file":
            del f["/t/Bolt/Bolt_%s.txt" % what[1]]
        elif what[0] == "short":
            f["/t/Bolt/Bolt_gt.txt"] = f["/t/Bolt/Bolt_gt.txt"][:what[1]]
        elif what[0] == "range":
            f["/t/Bolt/Bolt_frames.txt"] = [what[1]]
        elif what[0] == "name":
            name = what[1]
            d.add("/t/" + name)
            f = {k.replace("Bolt", name): v for k, v in f.items()}
        s = Disk(rep, rule, "missing part %s" % (what,), d, f)
        rep.check(s.fatal("nx_temple_color_128_sequence_new", s.text("/t"), s.text(name)), rule, s.inst + ": stops", "nx_temple_color_128_sequence_new", "an incomplete dataset is accepted")
    for w in ["base", "dir"] + [("file", k) for k in ("frames", "att", "gt")] + [("short", k) for k in (0, 6, 16, 22)] + [("range", t) for t in ("", "3", "3;5", "x,5")] + [("name", n) for n in ("", "Bol", "Boltx", "bolt", "Unknown")]:
        bad(rep, rule, w)
    s = Disk(rep, rule, "no sequence")
    s.call("nx_temple_color_128_sequence_free", None)
    s.end()


def kitti(rep):
    rule = "KITTI sequence"

    def rows(tag, n, w=12, sep=" "):
        c = []
        for k in range(n):
            for j in range(w):
                c += [Num("%s%d_%d" % (tag, k, j)), sep if j < w - 1 else "\n"]
        return c

    def calib():
        c = []
        for k in range(4):
            c += ["P%d: " % k]
            for j in range(12):
                c += [Num("c%d_%d" % (k, j)), " " if j < 11 else "\n"]
        return c

    def disk(seq, n, cams=(0, 1), lidar=True, gt=True, seqs=(), base="/k"):
        d = {base} | {"%s/sequences/%02d" % (base, x) for x in set(seqs) | {seq}} | {"%s/sequences/%02d/image_%d" % (base, seq, c) for c in cams} | ({"%s/sequences/%02d/velodyne" % (base, seq)} if lidar else set())
        f = {"%s/sequences/%02d/times.txt" % (base, seq): rows("t", n, 1), "%s/sequences/%02d/calib.txt" % (base, seq): calib()}
        if gt:
            f["%s/poses/%02d.txt" % (base, seq)] = rows("p", n)
        return d, f
    mat = [3 * k + r for r in range(3) for k in range(4)]   # file order -> column-major place
    D, S = "NXKittiSLAM", "NXKittiSLAMSequence"

    @session
    def good(rep, rule, seq, n, cams, lidar, gt, seqs):
        d, f = disk(seq, n, cams, lidar, gt, seqs)
        s = Disk(rep, rule, "sequence %d of %d frames, cameras %s, lidar %s, poses %s" % (seq, n, list(cams), lidar, gt), d, f)
        q = s.call("nx_kitti_slam_new", s.text("/k", "heapbase"))
        s.roots.append(q.base)
        g = s.field(q, D, "base_dir", "ptr")
        s.ok(isinstance(g, Ptr) and g.base != "heapbase" and samestr(s, s.str(g), list(b"/k")), "base directory is a copy", "is %s" % (g,))
        o = field_off(s.c.p, D, "is_seq_available")[0]
        s.same([s.load(q, o + 4 * k, 4, "i32") for k in range(22)], [s.K(int(k == seq or k in seqs)) for k in range(22)], "available sequences")
        for k in range(0, 22, 5):
            if k != seq and k not in seqs:
                t = s.fork()
                rep.check(t.fatal("nx_kitti_slam_sequence_new", q, k), rule, s.inst + ": missing sequence %d stops" % k, "nx_kitti_slam_sequence_new", "a missing sequence is accepted")
        z = s.call("nx_kitti_slam_sequence_new", q, seq)
        s.roots.append(z.base)
        s.closed()
        s.ok(isinstance(s.field(z, S, "dataset", "ptr"), Ptr) and s.field(z, S, "dataset", "ptr").base == q.base, "dataset", "is another")
        s.same([s.field(z, S, x, "i32") for x in ("seq_id", "length", "is_gt_available", "is_lidar_available")], [s.K(x) for x in (seq, n, int(gt), int(lidar))], "number, length, poses, lidar")
        o = field_off(s.c.p, S, "is_cam_available")[0]
        s.same([s.load(z, o + 4 * k, 4, "i32") for k in range(4)], [s.K(int(k in cams)) for k in range(4)], "cameras")
        o = field_off(s.c.p, S, "calib")[0]
        for k in range(4):
            w = [None] * 12
            for j, x in enumerate(mat):
                w[x] = s.V("c%d_%d" % (k, j))
            s.same([s.load(z, o + 96 * k + 8 * j, 8, "double") for j in range(12)], w, "calibration of camera %d" % k)
        t = s.field(z, S, "times", "ptr")
        s.same([s.at(t, k, 8, "double") for k in range(n)], [s.V("t%d_0" % k) for k in range(n)], "times")
        ps = s.field(z, S, "poses", "ptr")
        if gt:
            some = range(n) if n < 10 else sorted({k for k in list(range(3)) + list(range(297, 304)) + list(range(1297, n)) + [n - 1] if k < n})
            for k in some:
                w = [None] * 12
                for j, x in enumerate(mat):
                    w[x] = s.V("p%d_%d" % (k, j))
                m = s.load(ps, 8 * k, 8, "ptr")
                s.same([s.at(m, j, 8, "double") for j in range(12)], w, "pose %d" % k)
        else:
            s.ok(isinstance(ps, Ptr) and ps.base == "null" or isinstance(ps, R) and isval(ps, s.K(0)), "no poses", "is %s" % (ps,))
        if n:
            frames(s, "nx_kitti_slam_sequence_xload_frame", z, [((c, k), None, ["/k/sequences/%02d/image_%d/%06d.png" % (seq, c, k)]) for c in cams for k in sorted({0, n - 1})])
            for c in range(4):
                if c not in cams:
                    t = s.fork()
                    rep.check(t.fatal("nx_kitti_slam_sequence_xload_frame", z, c, 0, t.buf(64)), rule, s.inst + ": missing camera %d stops" % c, "nx_kitti_slam_sequence_xload_frame", "a missing camera is accepted")
        s.roots.remove(z.base)
        s.call("nx_kitti_slam_sequence_free", z)
        s.roots.remove(q.base)
        s.call("nx_kitti_slam_free", q)
        s.end()
    for a in ((0, 3, (0, 1), True, True, (1, 5)), (21, 1, (2, 3), False, True, ()), (7, 2, (), True, True, (0,)), (10, 0, (0,), False, True, ()), (11, 2, (0, 1, 2, 3), True, False, (3,)), (12, 0, (1,), False, False, ()), (4, 302, (0,), False, True, ()), (4, 301, (3,), False, False, ()), (4, 1302, (), False, True, ())):
        good(rep, rule, *a)

    @session
    def bad(rep, rule, what):
        d, f = disk(5, 3)
        x = "/k/sequences/05/"
        if what == "base":
            d.discard("/k")
        elif what == "times":
            del f[x + "times.txt"]
        elif what == "calib":
            del f[x + "calib.txt"]
        elif what[0] == "calib":
            f[x + "calib.txt"] = f[x + "calib.txt"][:what[1]]
        elif what[0] == "label":
            f[x + "calib.txt"] = [t if t != "P%d: " % what[1] else "Q%d: " % what[1] for t in f[x + "calib.txt"]]
        elif what[0] == "n times":
            f[x + "times.txt"] = rows("t", what[1], 1)
        elif what[0] == "n poses":
            f["/k/poses/05.txt"] = rows("p", what[1])
        s = Disk(rep, rule, "missing part %s" % (what,), d, f)
        b = s.text("/k")
        if what == "base":
            rep.check(s.fatal("nx_kitti_slam_new", b), rule, s.inst + ": stops", "nx_kitti_slam_new", "a missing dataset is accepted")
            return
        q = s.call("nx_kitti_slam_new", b)
        rep.check(s.fatal("nx_kitti_slam_sequence_new", q, 5), rule, s.inst + ": stops", "nx_kitti_slam_sequence_new", "an incomplete dataset is accepted")
    for w in ["base", "times", "calib"] + [("calib", k) for k in (0, 10, 24, 49, 74, 98)] + [("label", k) for k in range(4)] + [("n times", k) for k in (0, 2, 4)] + [("n poses", k) for k in (0, 2, 4)]:
        bad(rep, rule, w)
    for fn in ("nx_kitti_slam_free", "nx_kitti_slam_sequence_free"):
        s = Disk(rep, rule, "nothing to free by " + fn)
        s.call(fn, None)
        s.end()
