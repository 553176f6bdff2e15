"""Command-line options: every declaration and argument list gives the values, flags and rest the rules say."""
from vlib.heap import *
from checks.p15 import isval
import itertools

LEVEL = "bounded"
API = ["alloc", "free", "add", "new", "add_help", "set_from_args", "get_bool", "get_int", "get_double", "get_string", "get_rest", "is_set", "print_values", "print_usage", "set_usage_header", "set_usage_footer"]


def run(rep):
    for part in (parsing, declaring, reparsing, printing):
        try:
            part(rep)
        except Unsupported as e:
            rep.undecide(part.__name__, e)
    for r, n in (("option values", 300), ("option declaration", 30), ("option reparse", 30), ("option printing", 10)):
        rep.need(r, n)


_m = {}


def mod():
    if "m" not in _m:
        _m["m"] = kernels([("nx_options_" + f,) * 2 + (None,) for f in API], name="p19")
    return _m["m"]


class Num:
    """an argument that spells a number: a symbol"""
    def __init__(self, name, fmt):
        self.name, self.fmt = name, fmt

    def __repr__(self):
        return "<%s>" % self.name


class Opts(Session):
    """decl: list of (kind, names, default); upper case kinds are required"""
    def __init__(self, rep, rule, inst):
        super().__init__(rep, rule, mod(), inst)

    def fork(self):
        s = Opts(self.rep, self.rule, self.inst)
        o = super().fork()
        for a in ("ctx", "mem", "cons", "events", "todo", "roots", "k", "faulty"):
            setattr(s, a, getattr(o, a))
        s.o = self.o
        return s

    def f(self, fn, *a, **kw):
        return self.call("nx_options_" + fn, self.o, *a, **kw)

    def value(self, k, d):
        k = k.lower()
        if k == "s":
            return (self.text(d) if d is not None else None, 8)
        if k == "d":
            return (d if isinstance(d, R) else self.K(Fraction(d)), 8)
        return (d, 4)

    def va(self, decl):
        out = []
        for k, names, d in decl:
            if k.lower() == "r":
                out.append((self.text(names), 8))
            else:
                out += [(self.text(names), 8), (self.text("help of " + names), 8), self.value(k, d)]
        return out

    def declare(self, decl, how="add"):
        if how == "new":
            self.o = self.call("nx_options_new", self.text("".join(d[0] for d in decl)), va=self.va(decl))
            return self
        self.o = self.call("nx_options_alloc")
        if how == "add":
            self.f("add", self.text("".join(d[0] for d in decl)), va=self.va(decl))
        else:
            for d in decl:
                self.f("add", self.text(d[0]), va=self.va([d]))
        return self

    def num(self, n):
        """one character that stands for the text of a number"""
        v = self.V(n.name)
        return (n.fmt, v)

    def argv(self, args):
        """an argument vector, in memory of its own"""
        self.k += 1
        b = "heapargv%d" % self.k
        ps = []
        for a in args:
            self.k += 1
            t = "heaparg%d" % self.k
            ps.append(t)
            if isinstance(a, Num):
                def put(p, st, a=a, t=t):
                    ch = render(p, st, a.fmt, [p.V(a.name)])
                    register(p, st, t, len(ch) + 1)
                    for j, x in enumerate(ch + [p.K(0)]):
                        st.mem[t] = Entry("store", p.K(j), 1, x, st.mem.get(t))
                self.todo.append(put)
            else:
                self.todo.append(lambda p, st, a=a, t=t: mkstr(p, st, t, list(a.encode()) if isinstance(a, str) else a))

        def vec(p, st):
            register(p, st, b, 8 * len(ps))
            for j, t in enumerate(ps):
                st.mem[b] = Entry("store", p.K(8 * j), 8, Ptr(t, p.K(0)), st.mem.get(b))
        self.todo.append(vec)
        return Ptr(b, self.K(0)), [b] + ps

    def drop(self, blocks):
        """the caller reuses the argument memory"""
        self.events += [("released", b) for b in blocks]
        for b in blocks:
            self.mem.pop(b, None)

    def get(self, k, name):
        k = k.lower()
        v = self.f({"b": "get_bool", "i": "get_int", "d": "get_double", "s": "get_string"}[k], self.text(name))
        return self.str(v) if k == "s" and not (isinstance(v, Ptr) and v.base == "null") else v

    def rest(self):
        r = self.f("get_rest")
        if isinstance(r, R) or r.base == "null":
            return None
        out = []
        for j in range(20):
            q = self.load(r, 8 * j, 8, "ptr")
            if isinstance(q, R) and q.is_const() or isinstance(q, Ptr) and q.base == "null":
                return out
            out.append(self.str(q) if isinstance(q, Ptr) else None)
        return out

    def equal(self, k, got, want):
        k = k.lower()
        if want is None:
            return isinstance(got, Ptr) and got.base == "null" or isval(got, self.K(0)) if not isinstance(got, list) else False
        if k == "s":
            return isinstance(got, list) and samestr(self, got, list(want.encode()))
        if isinstance(want, Num):
            want = self.V(want.name)
        return isval(got, want if isinstance(want, R) else self.K(Fraction(want)))


def names(n):
    return n.split("|")


def number(t, real):
    import re
    m = re.match(r"\s*[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?" if real else r"\s*[+-]?\d+", t)
    return Fraction(m.group(0)) if m else 0


def oracle(decl, args):
    """(values, set, rest), or None when the program must stop"""
    val = {d[1]: d[2] for d in decl if d[0] not in "rR"}
    st = {n: False for n in val}
    at = {n: d for d in decl if d[0] not in "rR" for n in names(d[1])}
    rest, k = [], 0
    while k < len(args):
        a = args[k]
        d = at.get(a) if isinstance(a, str) else None
        k += 1
        if d is None:
            rest.append(a)
            continue
        if d[0] in "bB":
            val[d[1]] = 1
        else:
            if k == len(args):
                return None
            v = args[k]
            k += 1
            val[d[1]] = v if isinstance(v, Num) or d[0] in "sS" else number(v, d[0] in "dD")
        st[d[1]] = True
    if any(d[0].isupper() and not st[d[1]] for d in decl if d[0] not in "rR"):
        return None
    if any(d[0] == "R" for d in decl) and not rest:
        return None
    return val, st, rest


def session(f):
    def g(rep, rule, *a):
        try:
            f(rep, rule, *a)
        except Fatal as e:
            rep.check(False, rule, "%s" % (a,), str(e), "a legal call ends in a fatal error")
        except Unsupported as e:
            rep.undecide("%s %s" % (f.__name__, (a,)), e)
    return g


def judge(s, decl, args, tag=""):
    """the options hold what the arguments say"""
    w = oracle(decl, args)
    for d in decl:
        if d[0] in "rR":
            continue
        for n in names(d[1]):
            g = s.get(d[0], n)
            s.ok(s.equal(d[0], g, w[0][d[1]]), tag + "value of " + n, "is %s, not %s" % (g, w[0][d[1]]))
            g = s.f("is_set", s.text(n))
            s.ok(isval(g, s.K(int(w[1][d[1]]))), tag + n + " is set", "is %s, not %s" % (g, w[1][d[1]]))
    g = s.rest()
    if any(d[0] in "rR" for d in decl) and w[2]:
        s.ok(g is not None and len(g) == len(w[2]) and all(isinstance(x, Num) or samestr(s, y, list(x.encode())) for x, y in zip(w[2], g)), tag + "rest", "is %s, not %s" % (g, w[2]))
    else:
        s.ok(not g, tag + "rest", "is %s, not empty" % (g,))


ALL = [("b", "-b|--bool", 0), ("i", "--int|-i", -7), ("d", "-d", Fraction(5, 2)), ("s", "--str", "dflt"), ("r", "files", None)]


@session
def parse(rep, rule, decl, args, how="add"):
    inst = "%s with %s%s" % (" ".join("%s:%s=%s" % d for d in decl), list(args), "" if how == "add" else " declared by " + how)
    s = Opts(rep, rule, inst).declare(decl, how)
    v, bl = s.argv(["prog"] + list(args))
    w = oracle(decl, args)
    if w is None:
        rep.check(s.fatal("nx_options_set_from_args", s.o, len(args) + 1, v), rule, inst + ": stops", "nx_options_set_from_args", "an incomplete command line is accepted")
        return
    s.f("set_from_args", len(args) + 1, v)
    s.drop(bl)
    judge(s, decl, args)
    s.f("free")
    s.end()


def parsing(rep):
    rule = "option values"
    n0, r0 = Num("n0", "%d"), Num("x0", "%.17g")
    A = [(), ("-b",), ("--bool",), ("-i", n0), ("--int", n0), ("-i", "12"), ("-i", "-3"), ("-d", r0), ("-d", "2.25"), ("-d", "-1e2"), ("-d", "7"), ("--str", "abc"), ("--str", ""), ("--str", "-b"), ("--str", "--str"),
         ("x",), ("x", "y"), ("x", "-b", "y"), ("-i", "5", "x", "--str", "v", "y", "-b"), ("-i", "5", "--int", "6"), ("--int", "5", "x", "-i", n0), ("--str", "a", "--str", "bc"), ("-b", "-b"), ("--boo",), ("--boolx",), ("-",), ("--",), ("", "x"),
         ("-i",), ("--str",), ("x", "-d"), ("-b", "--int"), ("x", "-i", "-d", "-d", "1"), ("-d", "-i", "-i", "4"), ("y", "--str", "w", "-d", r0, "-i", n0, "z")]
    for a in A:
        parse(rep, rule, ALL, a)
    for a in A:
        if len(a) <= 3:
            parse(rep, rule, ALL[:4], a)
    for how in ("new", "one"):
        parse(rep, rule, ALL, ("x", "--str", "w", "-d", r0, "-i", n0, "-b"), how)
    REQ = [("B", "-b", 0), ("i", "--ii", 3), ("S", "-s|--ss", "q"), ("R", "files", None)]
    full = ["-b", "-s", "t", "f"]
    for a in (full, full[1:], full[:1] + full[3:], full[:3], ["f", "--ss", "x", "-b"], ["-s", "-b", "f"], ["-s", "f", "-b"], ["f"], []):
        parse(rep, rule, REQ, tuple(a))
    for k, d, v in (("I", 3, "4"), ("D", Fraction(1, 2), "1.5"), ("S", "", "z")):
        parse(rep, rule, [("b", "-b", 1), (k, "--val", d)], ("--val", v))
        parse(rep, rule, [("b", "-b", 1), (k, "--val", d)], ("-b",))
        parse(rep, rule, [(k, "--val", d), ("b", "-b", 1)], ("-b", "--val"))
    # names that share a bucket, a prefix or bytes above 127
    many = [("b", "-a", 0), ("b", "-A", 0), ("i", "--Aa", 1), ("i", "--BB", 2), ("s", "--Aaa", "p"), ("b", "--a", 0), ("i", "-%", 4), ("i", "-E", 5), ("s", "--n\u00e9", "q")]
    for a in ((), ("-A",), ("--BB", "9"), ("--Aa", "9"), ("-%", "1", "-E", "2"), ("--n\u00e9", "w"), ("--a", "--Aaa", "r", "-a")):
        parse(rep, rule, many, a)


def declaring(rep):
    rule = "option declaration"

    @session
    def bad(rep, rule, decl, what):
        s = Opts(rep, rule, "%s: %s" % (what, decl))
        s.o = s.call("nx_options_alloc")
        for d in decl[:-1]:
            s.f("add", s.text(d[0]), va=s.va([d]))
        d = decl[-1]
        va = s.va([d]) if d[1] is not None else [(None, 8), (s.text("h"), 8), s.value(*d[0::2])]
        rep.check(s.fatal("nx_options_add", s.o, s.text(d[0]), va=va), rule, s.inst, "nx_options_add", "an illegal declaration is accepted")
    for k, d in (("b", 1), ("i", 2), ("d", Fraction(1, 2)), ("s", "x")):
        bad(rep, rule, [(k, None, d)], "no name")
        for n in ("", "-", "a", "ab", "-ab", "-abc", "x|--yy", "-x|yy", "--xx|y", "-x|", "|--yy", "|"):
            bad(rep, rule, [(k, n, d)], "name %r" % n)
    for a, b in (("-a", "-a"), ("--aa", "--aa"), ("-a|--aa", "--aa"), ("-a|--aa", "-a"), ("-a", "--aa|-a"), ("--aa", "-b|--aa"), ("--aa|-a", "-a|--bb")):
        bad(rep, rule, [("i", a, 1), ("b", "-z", 1), ("s", b, "t")], "repeated name")
    bad(rep, rule, [("x", "-x", 1)], "unknown kind")

    @session
    def wrong(rep, rule, kind, getter):
        decl = [("b", "-b", 1), ("i", "-i", 2), ("d", "-d", 3), ("s", "-s", "4")]
        s = Opts(rep, rule, "%s fetched as %s" % (kind, getter)).declare(decl)
        n = s.text("-" + kind)
        rep.check(s.fatal("nx_options_get_" + getter, s.o, n) == (getter[0] != kind), rule, s.inst, "nx_options_get_" + getter, "an option is fetched as another type")
    for k in "bids":
        for g in ("bool", "int", "double", "string"):
            wrong(rep, rule, k, g)

    @session
    def unknown(rep, rule, getter):
        s = Opts(rep, rule, "unknown name with " + getter).declare([("b", "-b|--bool", 1), ("i", "--Aa", 2)])
        for n in ("-c", "--bo", "--booll", "", "--BB", "-b|--bool"):
            rep.check(s.fatal("nx_options_" + getter, s.o, s.text(n)), rule, "%s %r" % (s.inst, n), "nx_options_" + getter, "an unknown option is found")
            s.todo = []
    for g in ("get_bool", "get_int", "get_double", "get_string", "is_set"):
        unknown(rep, rule, g)

    @session
    def defaults(rep, rule):
        n0 = Num("n0", "%d")
        s = Opts(rep, rule, "before any argument")
        decl = [("b", "-b", 1), ("i", "--ii|-i", s.V("n0")), ("d", "-d|--dd", s.V("x0")), ("s", "-s", "text"), ("r", "files", None)]
        s.declare(decl)
        for d in decl[:4]:
            for n in names(d[1]):
                g = s.get(d[0], n)
                s.ok(s.equal(d[0], g, d[2]), "default of " + n, "is %s, not %s" % (g, d[2]))
                s.ok(isval(s.f("is_set", s.text(n)), s.K(0)), n + " is not set", "is %s" % s.st.ret)
        s.ok(not s.rest(), "rest", "not empty")
        v, bl = s.argv(["prog"])
        s.f("set_from_args", 1, v)
        s.drop(bl)
        judge(s, decl, ())
        s.f("free")
        s.end()
    defaults(rep, rule)

    @session
    def empty(rep, rule):
        s = Opts(rep, rule, "no options")
        s.o = s.call("nx_options_alloc")
        v, bl = s.argv(["prog", "a", "-b"])
        s.f("set_from_args", 3, v)
        s.ok(not s.rest(), "rest", "not empty")
        s.f("free")
        s.roots += bl
        s.end()
        s = Opts(rep, rule, "nothing is released")
        s.o = None
        s.call("nx_options_free", None)
        s.ok(True, "null", "")
    empty(rep, rule)

    @session
    def help_(rep, rule, arg):
        s = Opts(rep, rule, "help by " + arg).declare([("i", "-i", 1)])
        s.f("add_help")
        v, bl = s.argv(["prog", arg])
        rep.check(s.fatal("nx_options_set_from_args", s.o, 2, v), rule, s.inst, "nx_options_set_from_args", "the program goes on after the usage message")
        v, bl = s.argv(["prog", "-i", arg])
        rep.check(not s.fatal("nx_options_set_from_args", s.o, 3, v), rule, s.inst + " as a value", "nx_options_set_from_args", "an option value is taken for the help switch")
    for a in ("-h", "--help"):
        help_(rep, rule, a)


def reparsing(rep):
    """a second argument list replaces the first"""
    rule = "option reparse"

    @session
    def twice(rep, rule, a, b, decl=ALL):
        s = Opts(rep, rule, "%s%s then %s" % ("" if decl is ALL else "%s " % decl, list(a), list(b))).declare(decl)
        for k, x in enumerate((a, b)):
            v, bl = s.argv(["prog%d" % k] + list(x))
            if oracle(decl, x) is None:
                rep.check(s.fatal("nx_options_set_from_args", s.o, len(x) + 1, v), rule, s.inst + ": stops", "nx_options_set_from_args", "an incomplete command line is accepted after a complete one")
                return
            s.f("set_from_args", len(x) + 1, v)
            s.drop(bl)
            if k:
                judge(s, decl, x, "second ")
        s.f("free")
        s.end()
    L = [(), ("-b", "x", "y"), ("-i", "5", "-d", "2.5"), ("--str", "zz", "w"), ("x", "--str", "other", "-i", "6", "-b", "-d", "1", "y", "z")]
    for a, b in itertools.product(L, L):
        twice(rep, rule, a, b)
    D = [[(k, m, {"B": 0, "I": 3, "D": 4, "S": "q"}.get(k)), ("i", "-n", 1)] for k, m in (("B", "-b|--bb"), ("I", "-i"), ("D", "--dd"), ("S", "-s"), ("R", "files"))]
    G = {"B": [("--bb",), ("-b", "-n", "2")], "I": [("-i", "5"), ("-n", "2", "-i", "6")], "D": [("--dd", "5"), ("-n", "2", "--dd", "6")], "S": [("-s", "uu"), ("-n", "3", "-s", "v")], "R": [("f",), ("-n", "4", "f", "g")]}
    for decl in D:
        g = G[decl[0][0]]
        for a, b in itertools.product(g, g + [(), ("-n", "9")]):
            twice(rep, rule, a, b, decl)

    @session
    def again(rep, rule):
        s = Opts(rep, rule, "rest declared twice").declare([("r", "one", None), ("r", "two", None)])
        v, bl = s.argv(["p", "u"])
        s.f("set_from_args", 2, v)
        s.drop(bl)
        judge(s, [("r", "two", None)], ("u",))
        v, bl = s.argv(["p", "w"])
        s.f("set_from_args", 2, v)
        s.drop(bl)
        s.f("add", s.text("r"), va=[(s.text("three"), 8)])
        s.ok(not s.rest(), "rest is empty again", "not empty")
        s.f("free")
        s.end()
    again(rep, rule)

    @session
    def header(rep, rule):
        s = Opts(rep, rule, "usage texts replaced").declare([])
        for f in ("set_usage_header", "set_usage_footer"):
            s.f(f, s.text("one"))
            s.f(f, s.text("two"))
        s.f("free")
        s.end()
    header(rep, rule)


def printing(rep):
    rule = "option printing"
    OUT = Ptr("stream", None)

    def printed(s, fn):
        s.events = [e for e in s.events if e[0] in ("blk", "released", "fault")]
        for b in [b for b in s.mem if b.startswith("tape:")]:
            del s.mem[b]
        s.f(fn, Ptr("stream", s.K(0)))
        return "".join(chr(int(b.cval()) % 256) if b.is_const() else "~" for b in written(s.c, s.st))

    def join(d):
        n = names(d[1])
        lo = [x for x in n if len(x) > 2]
        sh = [x for x in n if len(x) == 2]
        return ", ".join(lo + sh)

    def shown(d, v):
        return {"b": lambda: "true" if v else "false", "i": lambda: "%d" % v, "d": lambda: "~", "s": lambda: "'%s'" % v}[d[0].lower()]()

    @session
    def show(rep, rule, decl, args, hd):
        s = Opts(rep, rule, "%s %s" % (" ".join("%s:%s" % d[:2] for d in decl), list(args))).declare(decl)
        if hd:
            s.f("set_usage_header", s.text("head\n"))
            s.f("set_usage_footer", s.text("foot\n"))
        rest = next((d for d in decl if d[0] in "rR"), None)
        own = [d for d in decl if d[0] not in "rR"]

        def usage(prog):
            w = max([len(join(d)) for d in own] or [0])
            t = "head\n" if hd else ""
            t += "USAGE: %s [options]" % prog + ("" if rest is None else " <%s>" % rest[1] if rest[0] == "R" else " [<%s>]" % rest[1]) + "\n"
            for d in own:
                t += "  %*s : help of %s %s\n" % (w, join(d), d[1], "(REQUIRED)" if d[0].isupper() else "[%s]" % shown(d, d[2]))
            return t + ("foot\n" if hd else "")
        g = printed(s, "print_usage")
        s.ok(g == usage("prog"), "usage", "prints %r, not %r" % (g, usage("prog")))
        v, bl = s.argv(["name"] + list(args))
        s.f("set_from_args", len(args) + 1, v)
        s.drop(bl)
        g = printed(s, "print_usage")
        s.ok(g == usage("name"), "usage of the named program", "prints %r, not %r" % (g, usage("name")))
        val, st, r = oracle(decl, args)
        w = max([len(join(d)) for d in own] + ([len(rest[1])] if rest else []) or [0])
        t = "".join("%*s: %s\n" % (w, join(d), shown(d, val[d[1]])) for d in own)
        if rest:
            t += "%*s: [%s]\n" % (w, rest[1], ", ".join("'%s'" % x for x in r))
        g = printed(s, "print_values")
        s.ok(g == t, "values", "prints %r, not %r" % (g, t))
        s.f("free")
        s.end()
    show(rep, rule, ALL, ("u", "-i", "44", "--str", "vv", "w"), 0)
    show(rep, rule, ALL, (), 1)
    show(rep, rule, [("I", "--number|-n", 3), ("b", "-q", 1), ("R", "some-files", None)], ("--number", "12", "f"), 1)
    show(rep, rule, [("b", "-q|--quiet", 0)], ("-q",), 0)
    show(rep, rule, [("r", "f", None)], ("x",), 0)
