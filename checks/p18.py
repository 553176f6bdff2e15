"""Data frames and CSV: typed cells over any history of calls; saving and loading; field types; malformed input."""
from vlib.heap import *
from checks.p15 import isval
import itertools

LEVEL = "bounded"
TYPES = ["STRING", "INT", "DOUBLE", "BOOL", "FACTOR"]
API = ["alloc", "free", "add_column", "add_columns", "column", "make_factor", "n_rows", "n_columns", "add_row", "is_na", "set_na", "save_csv_stream", "load_csv_stream", "fprintf", "append_row", "set", "save_csv", "load_csv", "xsave_csv", "xload_csv"]
API += [a + "_" + t.lower() for a in ("get", "set") for t in TYPES]
COL = ["type", "label", "n_factor_levels", "factor_level"]


def run(rep):
    for part in (cells, rows, growth, factors, types, saving, files, fields, malformed, lexing):
        try:
            part(rep)
        except Unsupported as e:
            rep.undecide(part.__name__, e)
    for r, n in (("data frame", 150), ("factor column", 30), ("CSV round trip", 80), ("CSV field type", 60), ("malformed CSV", 10), ("lexer", 20)):
        rep.need(r, n)


_m = {}


def mod():
    if "m" not in _m:
        _m["m"] = kernels([("nx_data_frame_" + f,) * 2 + (None,) for f in API] + [("nx_data_column_" + f,) * 2 + (None,) for f in COL], name="p18")
        e = _m["m"].enum("NXDataColumnType")
        if not e or any("NX_DCT_" + t not in e for t in TYPES):
            raise Unsupported("column types %s" % e)
        _m["T"] = {t: e["NX_DCT_" + t] for t in TYPES}
    return _m["m"], _m["T"]


class Frame(Session):
    def __init__(self, rep, rule, inst):
        m, self.T = mod()
        super().__init__(rep, rule, m, inst)
        self.df = None

    def fork(self):
        s = Frame(self.rep, self.rule, self.inst)
        o = super().fork()
        for a in ("ctx", "mem", "cons", "events", "todo", "roots", "k", "faulty"):
            setattr(s, a, getattr(o, a))
        s.df = self.df
        return s

    def f(self, fn, *a, **kw):
        return self.call("nx_data_frame_" + fn, self.df, *a, **kw)

    def new(self, cols, nrows=0):
        self.df = self.call("nx_data_frame_alloc")
        for t, lab in cols:
            self.f("add_column", self.T[t], self.text(lab))
        for _ in range(nrows):
            self.f("add_row")
        self.cols = cols
        return self

    def put(self, r, c, v):
        t = self.cols[c][0]
        self.f("set_" + t.lower(), r, c, self.text(v) if t in ("STRING", "FACTOR") else v if isinstance(v, R) else int(v) if t != "DOUBLE" else self.K(Fraction(v)))

    def cell(self, r, c, t=None):
        """None when not available"""
        if not isval(self.f("is_na", r, c), self.K(0)):
            return None
        t = t or self.cols[c][0]
        v = self.f("get_" + t.lower(), r, c)
        return self.str(v) if t in ("STRING", "FACTOR") else v

    def same(self, got, want):
        if want is None or got is None:
            return got is None and want is None
        if isinstance(got, list) != isinstance(want, (str, list)):
            return False
        if isinstance(got, list):
            return samestr(self, got, list(want.encode()) if isinstance(want, str) else want)
        return isval(got, want if isinstance(want, R) else self.K(Fraction(want)))

    def release(self):
        self.f("free")
        self.end()


def sample(s, t, k):
    """a value of a type: symbolic where it can be"""
    if t in ("STRING", "FACTOR"):
        return ["c%d" % k, "d%d" % k] if t == "STRING" else "lv%d" % (k % 2)
    if t == "BOOL":
        return k % 2
    return s.V("v%d" % k)


def session(f):
    def g(rep, *a):
        try:
            f(rep, *a)
        except Fatal as e:
            rep.check(False, a[0], "%s %s" % (f.__name__, a[1:]), str(e), "a legal call ends in a fatal error")
        except Unsupported as e:
            rep.undecide("%s %s" % (f.__name__, a), e)
    return g


def cells(rep):
    rule = "data frame"

    @session
    def one(rep, rule, t, late):
        s = Frame(rep, rule, "%s column%s" % (t, " added after the rows" if late else ""))
        s.new([("INT", "a")] if late else [("INT", "a"), (t, "b")], 2)
        if late:
            s.f("add_column", s.T[t], s.text("b"))
            s.cols = [("INT", "a"), (t, "b")]
        s.ok(isval(s.f("n_rows"), s.K(2)) and isval(s.f("n_columns"), s.K(2)), "size", "wrong size")
        dc = s.f("column", 1)
        s.ok(isval(s.call("nx_data_column_type", dc), s.K(s.T[t])), "type", "wrong column type")
        s.ok(s.same(s.str(s.call("nx_data_column_label", dc)), "b"), "label", "wrong label")
        s.ok(all(s.cell(r, c) is None for r in (0, 1) for c in (0, 1)), "new cells are not available", "a cell nobody has set has a value")
        for u in TYPES:
            if u != t:
                s.ok(s.fatal("nx_data_frame_get_" + u.lower(), s.df, 0, 1), "reading as %s is fatal" % u, "a %s cell is read as %s" % (t, u))
                v = s.text("x") if u in ("STRING", "FACTOR") else s.K(1)
                s.ok(s.fatal("nx_data_frame_set_" + u.lower(), s.df, 0, 1, v), "writing as %s is fatal" % u, "a %s cell is written as %s" % (t, u))
        s.ok(s.fatal("nx_data_frame_get_" + t.lower(), s.df, 0, 1), "reading an unavailable cell is fatal", "an unavailable cell is read")
        w = {(0, 0): s.V("i0"), (1, 0): s.V("i1")}
        for (r, c), v in w.items():
            s.put(r, c, v)
        for k, r in ((0, 1), (1, 0), (2, 1)):
            v = sample(s, t, k)
            s.put(r, 1, v)
            w[(r, 1)] = v
            for (rr, cc), x in w.items():
                g = s.cell(rr, cc)
                s.ok(s.same(g, x), "cell %d,%d after writing %d,1 (%d)" % (rr, cc, r, k), "holds %s" % (g,))
        s.f("set_na", 1, 1)
        s.ok(s.cell(1, 1) is None and s.same(s.cell(0, 1), w[(0, 1)]) and s.same(s.cell(1, 0), w[(1, 0)]), "unsetting one cell", "other cells change")
        s.f("set_na", 1, 1)
        s.ok(s.cell(1, 1) is None, "unsetting it again", "becomes available")
        r = s.f("add_row")
        s.ok(isval(r, s.K(2)) and isval(s.f("n_rows"), s.K(3)) and s.cell(2, 0) is None and s.cell(2, 1) is None and s.same(s.cell(0, 1), w[(0, 1)]), "one more row", "returns %s" % r)
        s.release()
    for t in TYPES:
        for late in (False, True):
            one(rep, rule, t, late)

    @session
    def self_assign(rep, rule):
        s = Frame(rep, rule, "string cell set to its own text").new([("STRING", "a")], 1)
        s.put(0, 0, ["c0", "c1"])
        s.f("set_string", 0, 0, s.f("get_string", 0, 0))
        s.ok(s.same(s.cell(0, 0), ["c0", "c1"]), "kept", "text is lost")
        s.release()
    self_assign(rep, rule)

    @session
    def many(rep, rule, n):
        s = Frame(rep, rule, "%d columns at once" % n)
        s.df = s.call("nx_data_frame_alloc")
        names = [s.text("n%d" % k) for k in range(n)]
        ty, lb = s.buf(4 * n, "heapty"), s.buf(8 * n, "heaplb")

        def fill(p, st):
            for k in range(n):
                st.mem["heapty"] = Entry("store", p.K(4 * k), 4, p.K(s.T[TYPES[k % 5]]), st.mem.get("heapty"))
                st.mem["heaplb"] = Entry("store", p.K(8 * k), 8, names[k], st.mem.get("heaplb"))
        s.todo.append(fill)
        s.f("add_columns", n, ty, lb)
        s.ok(isval(s.f("n_columns"), s.K(n)), "count", "wrong number of columns")
        for k in range(n):
            dc = s.f("column", k)
            s.ok(isval(s.call("nx_data_column_type", dc), s.K(s.T[TYPES[k % 5]])) and s.same(s.str(s.call("nx_data_column_label", dc)), "n%d" % k), "column %d" % k, "wrong type or label")
        s.release()
    for n in (0, 1, 5, 7):
        many(rep, rule, n)


def rows(rep):
    """whole rows given as arguments"""
    rule = "data frame"

    @session
    def one(rep, rule, types, how):
        s = Frame(rep, rule, "row of %s by %s" % (types, how)).new([(t, "c%d" % k) for k, t in enumerate(types)], 2)
        vals = [[sample(s, t, 10 * r + k) for k, t in enumerate(types)] for r in range(3)]
        for k in range(len(types)):
            s.put(0, k, vals[0][k])
        for r in (1, 2):
            va = [(s.text(v), 8) if t in ("STRING", "FACTOR") else (v if isinstance(v, R) else s.K(v), 8 if t == "DOUBLE" else 4) for t, v in zip(types, vals[r])]
            if how == "append":
                x = s.f("append_row", va=va)
                s.ok(isval(x, s.K(r + 1)), "number of appended row %d" % r, "is %s" % x)
            else:
                s.f("set", 1, va=va)
        s.ok(isval(s.f("n_rows"), s.K(4 if how == "append" else 2)), "rows", "%s rows" % s.st.ret)
        want = [vals[0], [None] * len(types), vals[1], vals[2]] if how == "append" else [vals[0], vals[2]]
        for r, row in enumerate(want):
            for c, v in enumerate(row):
                g = s.cell(r, c)
                s.ok(s.same(g, v), "cell %d,%d" % (r, c), "holds %s" % (g,))
        s.release()
    for how in ("append", "set"):
        for types in (("INT",), ("STRING", "INT"), ("DOUBLE", "BOOL", "FACTOR"), ("FACTOR", "DOUBLE", "INT", "STRING", "BOOL"), ("INT", "INT", "INT")):
            one(rep, rule, types, how)


def growth(rep):
    rule = "data frame"

    @session
    def grow(rep, rule, n):
        s = Frame(rep, rule, "%d rows one by one" % n).new([("INT", "a"), ("STRING", "b")])
        for k in range(n):
            r = s.f("add_row")
            s.ok(isval(r, s.K(k)), "row number %d" % k, "returns %s" % r)
            s.put(k, 0, s.V("v%d" % k))
            if k % 3 == 0:
                s.put(k, 1, "s%d" % k)
        for k in range(n):
            s.ok(s.same(s.cell(k, 0), s.V("v%d" % k)) and s.same(s.cell(k, 1), "s%d" % k if k % 3 == 0 else None), "row %d kept" % k, "row differs")
        s.release()
    for n in ((20,) if rep.tier != "thorough" else (20, 45)):
        grow(rep, rule, n)


def factors(rep):
    rule = "factor column"

    @session
    def levels(rep, rule, seq):
        s = Frame(rep, rule, "values %s" % (seq,)).new([("FACTOR", "f")], len(seq))
        for k, v in enumerate(seq):
            s.put(k, 0, v)
        lv = list(dict.fromkeys(seq))
        dc = s.f("column", 0)
        s.ok(isval(s.call("nx_data_column_n_factor_levels", dc), s.K(len(lv))), "one level per value", "%s levels" % s.st.ret)
        for k, v in enumerate(lv):
            s.ok(s.same(s.str(s.call("nx_data_column_factor_level", dc, k)), v), "level %d" % k, "wrong level")
        for k, v in enumerate(seq):
            s.ok(s.same(s.cell(k, 0), v), "value %d" % k, "holds %s" % (s.cell(k, 0),))
        s.release()
    for seq in (("x",), ("x", "y"), ("x", "x"), ("x", "y", "x", "z", "y"), ("", "a", ""), ("a", "ab", "a", "b")):
        levels(rep, rule, seq)

    @session
    def make(rep, rule, t, vals):
        s = Frame(rep, rule, "%s column %s made a factor" % (t, vals)).new([("INT", "o"), (t, "f")], len(vals))
        for k, v in enumerate(vals):
            s.put(k, 0, s.V("o%d" % k))
            if v is not None:
                s.put(k, 1, v)
        s.f("make_factor", 1)
        txt = [None if v is None else v if isinstance(v, str) else ("true" if v else "false") if t == "BOOL" else "%d" % v for v in vals]
        dc = s.f("column", 1)
        s.cols = [("INT", "o"), ("FACTOR", "f")]
        s.ok(isval(s.call("nx_data_column_type", dc), s.K(s.T["FACTOR"])) and s.same(s.str(s.call("nx_data_column_label", dc)), "f"), "type and label", "wrong type or label")
        lv = list(dict.fromkeys(x for x in txt if x is not None))
        s.ok(isval(s.call("nx_data_column_n_factor_levels", dc), s.K(len(lv))), "levels", "%s levels" % s.st.ret)
        for k, v in enumerate(txt):
            s.ok(s.same(s.cell(k, 1), v) and s.same(s.cell(k, 0), s.V("o%d" % k)), "value %d" % k, "holds %s" % (s.cell(k, 1),))
        s.f("make_factor", 1)
        s.ok(all(s.same(s.cell(k, 1), v) for k, v in enumerate(txt)), "made a factor again", "values change")
        s.release()
    make(rep, rule, "STRING", ["x", None, "y", "x"])
    make(rep, rule, "INT", [5, 7, None, 5])
    make(rep, rule, "BOOL", [0, 1, None, 1])
    make(rep, rule, "FACTOR", ["x", "y", "x"])
    make(rep, rule, "STRING", [])


def save(s, fail=None):
    s.events = [e for e in s.events if e[0] in ("blk", "released", "fault")]
    for b in [b for b in s.mem if b.startswith("tape:")]:
        del s.mem[b]
    return s.f("save_csv_stream", Ptr("stream", s.K(0)), fail=fail)


def saving(rep):
    rule = "CSV round trip"

    def build(rep, rule, cols, rows):
        s = Frame(rep, rule, "%s with %d rows %s" % ([c for c in cols], len(rows), str(rows)[:60])).new(cols, len(rows))
        for r, row in enumerate(rows):
            for c, v in enumerate(row):
                if v is not None:
                    s.put(r, c, s.V(v[1:]) if isinstance(v, str) and v.startswith("$") else v)
        for row in rows:
            for v in row:
                if isinstance(v, str) and v.startswith("$i"):
                    s.assume(lambda p, v=v: [(p.V(v[1:]) + 2 ** 31, ZERO | POS), (p.V(v[1:]) - 2 ** 31, NEG)])
        return s

    @session
    def trip(rep, rule, cols, rows, factors):
        s = build(rep, rule, cols, rows)
        s.ok(isval(save(s), s.K(1)), "saving succeeds", "returns %s" % s.st.ret)
        bs = written(s.c, s.st)
        txt = "".join(chr(int(b.cval()) % 256) if b.is_const() else "~" for b in bs)
        w = len(bs)
        s.f("free")
        s.events = [e for e in s.events if e[0] in ("blk", "released", "fault")] + [("load", "stream", w)]
        out = s.calls("nx_data_frame_load_csv_stream", Ptr("stream", s.K(0)), factors)
        s.ok(bool(out) and not out[0][0].c.p.dead, "accepted", "the text saved is rejected: %r" % txt)
        for s2, df in out:
            s2.inst = s.inst + (" loaded with factors" if factors else " loaded")
            s2.df = df
            # whole numbers may come back as integers, unavailable columns as text
            s2.ok(isval(s2.f("n_columns"), s2.K(len(cols))) and isval(s2.f("n_rows"), s2.K(len(rows))), "size", "text %r gives %s rows" % (txt, s2.st.ret))
            back = []
            for c, (t, lab) in enumerate(cols):
                dc = s2.f("column", c)
                g = s2.str(s2.call("nx_data_column_label", dc))
                s2.ok(s2.same(g, lab), "label %d" % c, "label %r comes back as %s" % (lab, g))
                bt = s2.call("nx_data_column_type", dc)
                bt = next((n for n, k in s2.T.items() if isval(bt, s2.K(k))), None)
                back.append(bt)
                vals = [row[c] for row in rows if row[c] is not None]
                want = {"STRING": ["STRING"], "FACTOR": ["STRING"], "INT": ["INT"], "BOOL": ["BOOL"], "DOUBLE": ["DOUBLE", "INT"]}[t] if vals else ["STRING"]
                if factors:
                    want = ["FACTOR" if x == "STRING" else x for x in want]
                s2.ok(bt in want, "type of column %d" % c, "%s column comes back as %s" % (t, bt))
            s2.cols = [(b, "") for b in back]
            if None in back:
                continue
            for r, row in enumerate(rows):
                for c, v in enumerate(row):
                    g = s2.cell(r, c)
                    x = s2.V(v[1:]) if isinstance(v, str) and v.startswith("$") else v
                    s2.ok(s2.same(g, x), "cell %d,%d" % (r, c), "%s comes back as %s (text %r)" % (v, g, txt))
            s2.release()

    @session
    def broken(rep, rule, cols, rows):
        s = build(rep, rule, cols, rows)
        save(s)
        n = nth(s.st)
        for k in range(n):
            s2 = s.fork()
            for s3, r in s2.calls("nx_data_frame_save_csv_stream", s2.df, Ptr("stream2", s2.K(0)), fail=n + k):
                s3.ok(isval(r, s3.K(0)), "output %d fails: reported" % k, "returns %s" % r)
    C = lambda *t: [(x, "c%d" % k) for k, x in enumerate(t)]
    A = ["c0", "d0"]
    trip(rep, rule, C("INT", "STRING"), [["$i0", "x"], ["$i1", 'say "hi", ok']], 0)
    trip(rep, rule, C("INT", "STRING"), [["$i0", ""], [None, 'a\nb']], 0)
    trip(rep, rule, C("STRING", "INT"), [["\\n", 5], ["12", None]], 0)
    trip(rep, rule, C("BOOL", "INT"), [[1, "$i0"], [0, "$i1"]], 0)
    trip(rep, rule, C("BOOL", "BOOL"), [[None, 1], [1, None], [0, 0]], 0)
    trip(rep, rule, C("DOUBLE", "BOOL"), [["$d0", 1]], 0)
    trip(rep, rule, C("INT", "DOUBLE"), [["$i0", "$d0"], ["$i1", None]], 0)
    trip(rep, rule, C("FACTOR", "INT"), [["x", 1], ["y", 2], ["x", None]], 0)
    trip(rep, rule, C("STRING", "INT"), [["x", 1], ["y", 2], ["x", 3]], 1)
    trip(rep, rule, C("INT", "STRING", "FACTOR"), [[1, "x", "p"], [None, None, "q"], [3, "", "p"]], 1)
    trip(rep, rule, C("INT"), [["$i0"], ["$i1"]], 0)
    trip(rep, rule, C("INT", "INT"), [], 0)
    trip(rep, rule, [("INT", 'a "q"'), ("INT", "b\\n"), ("STRING", "c,\nd"), ("BOOL", "")], [[1, 2, "true", 1]], 0)
    trip(rep, rule, C("STRING", "INT"), [[[195, 191], 1], [[97, 255, 98], 2]], 0)
    trip(rep, rule, C("STRING", "STRING"), [["true", "1.5"], ["false", "nan"]], 0)
    broken(rep, rule, C("INT", "STRING", "BOOL", "DOUBLE", "FACTOR"), [["$i0", "x", 1, "$d0", "u"], [None, None, None, None, None]])


def files(rep):
    """the same by file name: opened for the right purpose, closed once, every failure reported"""
    rule = "CSV round trip"

    def closed(s):
        o, c = (sum(1 for e in s.events if e[0] == k) for k in ("open", "closed"))
        s.ok(o == c, "every file is closed", "%d opened, %d closed" % (o, c))

    @session
    def one(rep, rule, x, factors):
        s = Frame(rep, rule, "%s file%s" % ("must-succeed" if x else "ordinary", ", text as factors" if factors else "")).new([("INT", "a"), ("STRING", "b")], 2)
        for r, (a, b) in enumerate(((5, "x"), (7, "y"))):
            s.put(r, 0, a)
            s.put(r, 1, b)
        r = s.f(x + "save_csv", s.text("f.csv"))
        s.ok(x == "x" or isval(r, s.K(1)), "saving succeeds", "returns %s" % r)
        closed(s)
        bs = [int(b.cval()) % 256 for b in written(s.c, s.st)]
        s.release()
        s = Frame(rep, rule, s.inst + ", loaded")
        s.todo.append(lambda p, st: give(p, st, "stream", bs))
        s.df = s.call("nx_data_frame_%sload_csv" % x, s.text("f.csv"), factors)
        closed(s)
        s.cols = [("INT", "a"), ("FACTOR" if factors else "STRING", "b")]
        for k, (t, _) in enumerate(s.cols):
            s.ok(isval(s.call("nx_data_column_type", s.f("column", k)), s.K(s.T[t])), "type of column %d" % k, "is %s" % s.st.ret)
        s.ok(isval(s.f("n_rows"), s.K(2)) and all(s.same(s.cell(r, c), v) for r, row in enumerate(((5, "x"), (7, "y"))) for c, v in enumerate(row)), "cells", "differ")
        s.release()

    @session
    def broken(rep, rule, x, what):
        """the k-th operation on the file fails"""
        T = list(b"a,b\n5,x\n")
        for k in range(40):
            s = Frame(rep, rule, "%s%s_csv, operation %d fails" % (x, what, k))
            if what == "save":
                s.new([("INT", "a"), ("STRING", "b")], 1)
                s.put(0, 0, 5)
                s.put(0, 1, "x")
            else:
                s.todo.append(lambda p, st: give(p, st, "stream", T))
            name, n0 = s.text("f.csv"), nth(s.st) if what == "save" else 0
            args = (s.df, name) if what == "save" else (name, 0)
            fn = "nx_data_frame_%s%s_csv" % (x, what)
            clean = s.fork()
            clean.call(fn, *args)
            if k >= nth(clean.st) - n0:
                break
            if x:
                s.rep.check(s.fatal(fn, *args, fail=n0 + k), rule, s.inst, fn, "a failure is not reported")
                continue
            r = s.call(fn, *args, fail=n0 + k)
            s.ctx.fail_at = None
            s.ok(isval(r, s.K(0)) if what == "save" else isinstance(r, Ptr) and r.base == "null", "is reported", "returns %s" % r)
            o, c = (sum(1 for e in s.events if e[0] == j) for j in ("open", "closed"))
            s.ok(o == c, "the file is closed", "%d opened, %d closed" % (o, c))
            if what == "save":
                s.release()
            else:
                s.end()
    for x in ("", "x"):
        for factors in (0, 1):
            one(rep, rule, x, factors)
        for what in ("save", "load"):
            broken(rep, rule, x, what)


def load(rep, rule, inst, txt, factors=0):
    """outcomes of loading a text"""
    s = Frame(rep, rule, inst)
    s.todo.append(lambda p, st: give(p, st, "stream", list(txt.encode())))
    return s.calls("nx_data_frame_load_csv_stream", Ptr("stream", s.K(0)), factors)


def types(rep):
    """the type of a column follows from its fields"""
    rule = "CSV field type"
    F = {"true": ("BOOL", 1), "false": ("BOOL", 0), "5": ("INT", 5), "7": ("INT", 7), "-7": ("INT", -7), "0": ("INT", 0), "+3": ("INT", 3), "010": ("INT", 10), "2147483647": ("INT", 2147483647), "-2147483648": ("INT", -2 ** 31), "2147483648": ("DOUBLE", 2 ** 31),
         "-3000000000": ("DOUBLE", -3 * 10 ** 9), "1.5": ("DOUBLE", Fraction(3, 2)), "-2.5e2": ("DOUBLE", -250), "1e3": ("DOUBLE", 1000), "True": ("STRING", None), "truex": ("STRING", None), "5a": ("STRING", None), "a b": ("STRING", None),
         '"5"': ("STRING", None), '"true"': ("STRING", None), "1.5.2": ("STRING", None), "-": ("STRING", None), "x": ("STRING", None), "y": ("STRING", None), "": (None, None)}
    order = ["INT", "DOUBLE"]

    def join(ts):
        ts = [t for t in ts if t]
        if not ts or "STRING" in ts:
            return "STRING"
        if "BOOL" in ts:
            return "BOOL" if set(ts) == {"BOOL"} else "STRING"
        return "DOUBLE" if "DOUBLE" in ts else "INT"

    def val(f, t):
        if f == "":
            return None
        if t == "STRING":
            return f[1:-1] if f.startswith('"') else f
        return F[f][1]

    @session
    def col(rep, rule, fs, factors):
        inst = "column %s%s" % (list(fs), " with factors" if factors else "")
        txt = "k,v\n" + "".join("1,%s\n" % f for f in fs)
        t = join([F[f][0] for f in fs])
        out = load(rep, rule, inst, txt, factors)
        rep.check(bool(out), rule, inst + ": accepted", "nx_data_frame_load_csv_stream", "a legal text is rejected")
        for s, df in out:
            s.df = df
            w = "FACTOR" if factors and t == "STRING" else t
            bt = s.call("nx_data_column_type", s.f("column", 1))
            if not s.ok(isval(bt, s.K(s.T[w])), "type", "becomes type %s, not %s" % (bt, w)):
                continue
            s.cols = [("INT", "k"), (w, "v")]
            for r, f in enumerate(fs):
                g = s.cell(r, 1)
                s.ok(s.same(g, val(f, t)), "value of row %d" % r, "%r becomes %s" % (f, g))
                s.ok(s.same(s.cell(r, 0), 1), "first column of row %d" % r, "differs")
            s.release()
    for f in F:
        col(rep, rule, (f,), 0)
    reps = ["true", "5", "1.5", "x", "", '"5"']
    for a, b in itertools.product(reps, repeat=2):
        col(rep, rule, (a, b), 0)
    for q in (("5", "1.5", "7"), ("", "true", "", "false"), ("x", "", "y", "x")):
        col(rep, rule, q, 1)
        col(rep, rule, q, 0)


def fields(rep):
    """how a text is cut into fields"""
    rule = "CSV round trip"

    @session
    def cut(rep, rule, txt, labels, rows):
        inst = "text %r" % txt
        out = load(rep, rule, inst, txt)
        rep.check(bool(out), rule, inst + ": accepted", "nx_data_frame_load_csv_stream", "a legal text is rejected")
        for s, df in out:
            s.df = df
            ok = s.ok(isval(s.f("n_columns"), s.K(len(labels))) and isval(s.f("n_rows"), s.K(len(rows))), "size", "wrong number of rows or columns")
            if not ok:
                continue
            for c, l in enumerate(labels):
                g = s.str(s.call("nx_data_column_label", s.f("column", c)))
                s.ok(s.same(g, l), "label %d" % c, "label %s" % (g,))
            s.cols = [("STRING", l) for l in labels]
            for r, row in enumerate(rows):
                for c, v in enumerate(row):
                    g = s.cell(r, c)
                    s.ok(s.same(g, v), "field %d,%d" % (r, c), "is %s, not %r" % (g, v))
            s.release()
    cut(rep, rule, "a\nx\n", ["a"], [["x"]])
    cut(rep, rule, "a\nx", ["a"], [["x"]])
    cut(rep, rule, "a,b\nx,y", ["a", "b"], [["x", "y"]])
    cut(rep, rule, "a,b\nx,\n,y\n", ["a", "b"], [["x", None], [None, "y"]])
    cut(rep, rule, "a,b,c\n,,\nx,,\n,,z", ["a", "b", "c"], [[None] * 3, ["x", None, None], [None, None, "z"]])
    cut(rep, rule, "a,b\nx,", ["a", "b"], [["x", None]])
    cut(rep, rule, ",b\nx,y\n", ["", "b"], [["x", "y"]])
    cut(rep, rule, '"a","b"\n"x","y"\n', ["a", "b"], [["x", "y"]])
    cut(rep, rule, '"a""","b,c"\n"","x\ny"\n', ['a"', "b,c"], [["", "x\ny"]])
    cut(rep, rule, '"""",b\n"""x""",","', ['"', "b"], [['"x"', ","]])
    cut(rep, rule, 'a b , c\n x ,y z', ["a b ", " c"], [[" x ", "y z"]])
    cut(rep, rule, "a;b\nx;y", ["a;b"], [["x;y"]])


def malformed(rep):
    rule = "malformed CSV"
    for t in ("", "\n", "a\n\nx\n", "a,b\nx\n", "a\nx,y\n", "a,b\nx,y,z\n", 'a\n"x\n', 'a\n"x""', 'a\nx"y\n', 'a\n"x"y\n', 'a\n"x" ,y', "a,b\nx,y\n\n", '"', 'a"', 'a\n"x"""y"', "a,b\n\n"):
        inst = "text %r: rejected" % t
        try:
            out = load(rep, rule, inst, t)
            rep.check(not out, rule, inst, "nx_data_frame_load_csv_stream", "a malformed text is accepted")
        except Unsupported as e:
            rep.undecide(inst, e)


def lexing(rep):
    """positions of the lexer"""
    rule = "lexer"
    m = kernels([("nx_lexer_" + f,) * 2 + (None,) for f in ("new", "free", "consume", "match", "current_char", "position", "line_no", "column_no", "text")], name="p18l")

    def go(t):
        s = Session(rep, rule, m, "text %r" % t)
        lx = s.call("nx_lexer_new", s.text(t.encode("latin-1")))
        line, col = 1, 0
        for k in range(len(t) + 2):
            ch = t[k] if k < len(t) else None
            if k <= len(t):
                if ch == "\n":
                    line, col = line + 1, 0
                elif ch == "\r":
                    col = 0
                elif ch == "\t":
                    col += 8
                else:
                    col += 1
            if k:
                s.call("nx_lexer_consume", lx)
                s.ok(isval(s.st.ret, s.K(ord(ch) if ch else -1)), "character %d" % k, "returns %s" % s.st.ret)
            s.ok(isval(s.call("nx_lexer_current_char", lx), s.K(ord(ch) if ch else -1)), "current character %d" % k, "is %s" % s.st.ret)
            s.ok(isval(s.call("nx_lexer_position", lx), s.K(min(k, len(t)))), "position %d" % k, "is %s" % s.st.ret)
            s.ok(isval(s.call("nx_lexer_line_no", lx), s.K(line)), "line at %d" % k, "is %s, not %d" % (s.st.ret, line))
            s.ok(isval(s.call("nx_lexer_column_no", lx), s.K(col)), "column at %d" % k, "is %s, not %d" % (s.st.ret, col))
        s.call("nx_lexer_free", lx)
        s.end()

    def match(t, w, start):
        s = Session(rep, rule, m, "match %r in %r at %d" % (w, t, start))
        lx = s.call("nx_lexer_new", s.text(t))
        for _ in range(start):
            s.call("nx_lexer_consume", lx)
        see = lambda: [s.call("nx_lexer_" + f, lx).show() for f in ("position", "current_char", "line_no", "column_no")]
        before = see()
        ok = t[start:].startswith(w)
        s.ok(isval(s.call("nx_lexer_match", lx, s.text(w)), s.K(1 if ok else 0)), "result", "returns %s" % s.st.ret)
        if ok:
            s.ok(isval(s.call("nx_lexer_position", lx), s.K(start + len(w))), "position after", "is %s" % s.st.ret)
            e = t[start + len(w):start + len(w) + 1]
            s.ok(isval(s.call("nx_lexer_current_char", lx), s.K(ord(e) if e else -1)), "character after", "is %s" % s.st.ret)
        else:
            after = see()
            s.ok(before == after, "nothing is consumed", "state %s becomes %s" % (before, after))
        s.call("nx_lexer_free", lx)
        s.end()
    try:
        for t in ("", "a", "ab\ncd", "\n\n", "a\tb\rc\n", "a\xffb", "\xc3\xa9"):
            go(t)
        for t, w, k in (("true", "true", 0), ("trux", "true", 0), ("tru", "true", 0), ("xtrue", "true", 1), ("a\ntrb", "\ntrue", 1), ("", "a", 0), ("abc", "", 1)):
            match(t, w, k)
    except Fatal as e:
        rep.check(False, rule, "lexer", str(e), "a legal call ends in a fatal error")
