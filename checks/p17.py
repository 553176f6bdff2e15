"""JSON: text to tree, tree to text and back, tree access, bundles, logs."""
from vlib.heap import *
from checks.p15 import isval, ld, orig, free_of, setsa, SA
from checks.p16 import case, never, replay, taken, ordinary, elems, KEY
from vlib import build
import itertools, re, subprocess

LEVEL = "bounded"
N = "NXJSONNode"
OBJ, ARR, STR, INT, FP, TRUE, FALSE, NULL = range(8)


def run(rep):
    try:
        kinds = types(rep)
    except Unsupported as e:
        rep.undecide("types", e)
        return
    for part in (documents, malformed, numbers, access, building, bundles, logs):
        try:
            part(rep, kinds)
        except Unsupported as e:
            rep.undecide(part.__name__, e)
    for r, n in (("parse", 150), ("rejection", 40), ("number grammar", 200), ("print", 100), ("tree access", 60), ("tree building", 20), ("bundle", 60), ("JSON log", 10)):
        rep.need(r, n)


def types(rep):
    """values of the node type constants"""
    names = ("OBJECT", "ARRAY", "STRING", "INTEGER", "FPNUMBER", "TRUE", "FALSE", "NULL")
    src = '#include "virg/nexus/nx_json_tree.h"\n' + "".join("@t_%s@ NX_JNT_%s\n" % (n, n) for n in names)
    r = subprocess.run(["clang", "-E", "-P", "-x", "c", "-I" + build.REPO + "/include", "-"], input=src, capture_output=True, text=True)
    out = {}
    for l in r.stdout.splitlines():
        q = re.match(r"@t_(\w+)@ ([-+*|&~<>()0-9xXa-fA-FuUlL ]+)$", l)
        if q:
            out[q.group(1)] = int(eval(re.sub("(?<=[0-9a-fA-F])[uUlL]+", "", q.group(2)), {"__builtins__": {}}))
    if set(out) != set(names):
        raise Unsupported("node types %s" % sorted(out))
    return out


# a value: ("o", [(name, value)]), ("a", [value]), ("s", chars), ("n", text), True, False, None
def text_of(v, sp=""):
    """bytes (numbers or names of symbolic characters) of a document"""
    if v is True:
        return list(b"true")
    if v is False:
        return list(b"false")
    if v is None:
        return list(b"null")
    if v[0] == "n":
        return list(v[1].encode())
    if v[0] == "s":
        return [34] + list(v[2] if len(v) > 2 else v[1]) + [34]
    w = list(sp.encode())
    out = [ord("[" if v[0] == "a" else "{")] + w
    for k, e in enumerate(v[1]):
        if k:
            out += w + [44] + w
        if v[0] == "o":
            out += text_of(("s",) + tuple(e[0] if isinstance(e[0], tuple) else (e[0],))) + w + [58] + w + text_of(e[1], sp)
        else:
            out += text_of(e, sp)
    return out + w + [ord("]" if v[0] == "a" else "}")]


def syms(v):
    return [x for x in text_of(v) if isinstance(x, str)]


SPECIAL = (0, -1, 34, 92, 8, 9, 10, 12, 13)


def doc(v, sp="", base="s"):
    t = text_of(v, sp)

    def init(p, st):
        mkstr(p, st, base, t)
        ordinary(p, st, sorted({x for x in t if isinstance(x, str)}), SPECIAL)
    return init


def show(v):
    return "".join(chr(x) if isinstance(x, int) else "~" + x for x in text_of(v)).replace("\n", "\\n")


def tree(c, st, q, depth=0):
    """tree at a node: (type, text, [children])"""
    if not isinstance(q, Ptr) or q.base == "null" or depth > 12:
        return None
    b = block(st, q.base)
    if b is not None and not b[1]:
        return ("released",)
    g = lambda f, ty: get_field(c.p, st, q.base, N, f, ty)
    kids, k = [], g("down", "ptr")
    while isinstance(k, Ptr) and k.base != "null" and len(kids) < 60:
        kids.append(tree(c, st, k, depth + 1))
        k = get_field(c.p, st, k.base, N, "right", "ptr")
    t = g("type", "i32")
    tx = g("text", "ptr")
    return (int(t.cval()) if t.is_const() else t.show(), getstr(c, st, tx) if isinstance(tx, Ptr) and tx.base != "null" else None, kids)


def agrees(c, got, v, T):
    """does a tree agree with a value?"""
    if got is None or got == ("released",):
        return False
    if v is True or v is False or v is None:
        return got[0] == T[{True: "TRUE", False: "FALSE", None: "NULL"}[v]] and not got[2]
    if v[0] == "n":
        return got[0] == T["FPNUMBER" if re.search("[.eE]", v[1]) else "INTEGER"] and samestr(c, got[1], list(v[1].encode())) and not got[2]
    if v[0] == "s":
        return got[0] == T["STRING"] and samestr(c, got[1], v[1]) and not got[2]
    if v[0] == "a":
        return got[0] == T["ARRAY"] and len(got[2]) == len(v[1]) and all(agrees(c, g, e, T) for g, e in zip(got[2], v[1]))
    flat = [x for nm, e in v[1] for x in (("s",) + (nm if isinstance(nm, tuple) else (nm,)), e)]
    return got[0] == T["OBJECT"] and len(got[2]) == len(flat) and all(agrees(c, g, e, T) for g, e in zip(got[2], flat))


def tshow(t):
    return str(t)[:200]


S = lambda *ch: ("s", list(ch))
E = lambda raw, dec: ("s", dec, raw)
I, F = ("n", "7"), ("n", "-1.5e2")
ATOMS = [I, F, ("n", "0"), S("c0"), S(), S("c0", "c1"), True, False, None, ("a", []), ("o", [])]
ESCAPES = [E([92, ord(ch)], [v]) for ch, v in (("n", 10), ("r", 13), ("t", 9), ("b", 8), ("f", 12), ('"', 34), ("\\", 92), ("/", 47))]
ESCAPES += [E(["c0", 92, 34, "c1"], ["c0", 34, "c1"]), E([92, 92, 92, 34], [92, 34]), E([92, 34, 92, 110], [34, 10]), E(["c0", 92, 92], ["c0", 92])]
NM = lambda *ch: (list(ch),)


def docs():
    out = [("a", []), ("o", [])]
    out += [("a", [x]) for x in ATOMS + ESCAPES]
    out += [("o", [(NM("k"), x)]) for x in ATOMS]
    out += [("a", [x, y]) for x, y in itertools.product([I, S("c0"), True, ("a", []), ("a", [I]), ("o", [(NM("k"), I)])], repeat=2)]
    out += [("o", [(NM("k"), x), (NM("l", "m"), y)]) for x, y in itertools.product([I, False, None, ("o", []), ("a", [S("c0"), I])], repeat=2)]
    out += [("a", [I, F, True]), ("a", [("a", [("a", []), I]), ("a", [F])]), ("o", [(NM("k"), ("o", [(NM("l"), ("a", [I, None]))])), (NM(), S("c0")), (NM("m"), ("a", [("o", [(NM("n"), F)]), False]))]),
            ("a", [("o", [(NM("k"), ("a", [("o", [(NM("l"), S())])]))]), I]), ("o", [((["k", 34], ["k", 92, 34]), S("c0"))])]
    return out


def documents(rep, T):
    rule, r2 = "parse", "print"
    m = kernels([(f, f, None) for f in ("nx_json_tree_from_string", "nx_json_tree_from_stream", "nx_json_tree_fprint", "nx_json_tree_free")], opaque=["nx_fstr"], name="p17d")
    fn = "nx_json_tree_from_string"
    for num, v in enumerate(docs()):
        for sp in ("", " ", "\n\t\r "):
            if sp and num % 5:
                continue
            inst = show(v) + (" with white space" if sp else "")
            ctx = Ctx()

            def j(c, st):
                got = tree(c, st, st.ret)
                rep.check(agrees(c, got, v, T), rule, inst, c.fn.where(), "parses to %s" % tshow(got))
            c = case(rep, rule, m, fn, inst, doc(v, sp), ctx=ctx, roots=("s",), judge=j)
            rep.check(c is not None or any(x == inst for x, _ in rep.undecided), rule, inst + ": accepted", fn, "a well-formed document is rejected")
            if c is None or len(c.parts) != 1 or sp:
                continue
            st0 = c.parts[0]
            if not agrees(c, tree(c, st0, st0.ret), v, T):
                continue

            def chain(p, st):
                st.mem, st.cons, st.events = dict(st0.mem), list(st0.cons), [e for e in st0.events if e[0] in ("blk", "released")]
                for e in st.events:
                    if e[0] == "blk":
                        p.exists.add(e[1])
            for level in ((0, 1, 9) if num % 3 == 0 else (num % 3,)):
                i2 = "%s printed at level %d" % (show(v), level)
                cp = case(rep, r2, m, "nx_json_tree_fprint", i2, chain, {1: st0.ret, 2: level}, ctx=ctx, roots=("s", st0.ret.base))
                if cp is None or len(cp.parts) != 1:
                    if cp is None and not any(x == i2 for x, _ in rep.undecided):
                        rep.check(False, r2, i2, "nx_json_tree_fprint", "printing a tree fails")
                    continue
                bs = written(cp, cp.parts[0])

                def again(p, st):
                    register(p, st, "s", len(bs) + 1)
                    for k, b in enumerate(bs + [p.K(0)]):
                        st.mem["s"] = Entry("store", p.K(k), 1, b, st.mem.get("s"))
                    st.cons = list(cp.parts[0].cons)

                def j2(c, st):
                    got = tree(c, st, st.ret)
                    rep.check(agrees(c, got, v, T), r2, i2 + ": same document", c.fn.where(), "prints %s, which parses to %s" % ("".join(chr(int(b.cval())) if b.is_const() else "~" for b in bs)[:80], tshow(got)))
                ca = case(rep, r2, m, fn, i2 + " and parsed", again, ctx=ctx, roots=("s",), judge=j2)
                rep.check(ca is not None or any(x == i2 + " and parsed" for x, _ in rep.undecided), r2, i2 + ": well-formed", "nx_json_tree_fprint", "prints %s, which the parser rejects" % "".join(chr(int(b.cval())) if b.is_const() else "~" for b in bs)[:100])
            i3 = "%s released" % show(v)
            case(rep, rule, m, "nx_json_tree_free", i3, chain, {0: st0.ret}, ctx=ctx, roots=("s",))
    # text from a stream
    for v in (docs()[2], docs()[-1], ("a", [S(*["c%d" % k for k in range(5)])])):
        inst = "stream with " + show(v)
        t = text_of(v)

        def st_in(p, st):
            give(p, st, "stream", t)
            ordinary(p, st, syms(v), SPECIAL)
        case(rep, rule, m, "nx_json_tree_from_stream", inst, st_in, judge=lambda c, st: rep.check(agrees(c, tree(c, st, st.ret), v, T), rule, inst, c.fn.where(), "parses to %s" % tshow(tree(c, st, st.ret))))
    # long streams: the whole text reaches the parser
    m2 = kernels([("nx_json_tree_from_stream",) * 2 + (None,)], opaque=["nx_json_tree_from_string"], name="p17s")
    for n in (1, 1021, 1022, 1023, 1024) + ((2045, 2046, 2047, 2048) if rep.tier == "thorough" else ()):
        inst = "stream of %d characters" % n

        def long_text(p, st):
            p.laps = n + 5
            give(p, st, "stream", [32 + k % 64 for k in range(n)])

        def parse(p, i, st, a):
            st.events.append(("parsed", cstr(p, st, a[0], 6000)))
            return Ptr("null", p.K(0))

        def j3(c, st):
            got = [e[1] for e in st.events if e[0] == "parsed"]
            rep.check(len(got) == 1 and len(got[0]) == n and all(isval(g, c.K(32 + k % 64)) for k, g in enumerate(got[0])), rule, inst + ": whole text parsed", c.fn.where(), "%s characters reach the parser" % [len(g) for g in got])
        case(rep, rule, m2, "nx_json_tree_from_stream", inst, long_text, opaque={"nx_json_tree_from_string": parse}, judge=j3, deadline=100)


def malformed(rep, T):
    rule = "rejection"
    fn = "nx_json_tree_from_string"
    m = kernels([(fn, fn, None)], opaque=["nx_fstr"], name="p17x")
    bad = ['', ' ', '[', '{', ']', '}', ',', ':', '"a"', '7', 'true', 'null', '[7', '[7,', '[7,]', '[,]', '[,7]', '[7 7]', '[7;7]', '[7,,7]', '[7:7]', '[}', '{]', '[7}', '{"a":7]', '{"a"}', '{"a":}', '{"a":7,}',
           '{"a" 7}', '{"a",7}', '{7:7}', '{a:7}', '{:7}', '{"a":7 "b":7}', '{"a":7,7}', '{"a":7', '{"a":', '{"a"', '{true:7}', '{[]:7}', '[tru]', '[trux]', '[fals]', '[nul]', '[True]', '[nulL]', '["a]', '["', '["\\q"]', '["\\u0"]', '["\\', '["a"',
           "['a']", '[+7]', '[.5]', '[#]', '[/]', '[a]', '[[7]', '[[7]', '{"a":{"b":7}', '[{"a":7]}', '["a""b"]', '["a":7]', '[7.]', '[7.e1]', '[07]', '[-]', '[--7]', '[-07]', '[7e]', '[7e+]', '[7ee1]', '[7.1.1]', '[0x7]', '[1 ,2 3]']
    for t in bad:
        never(rep, rule, m, fn, "rejects %s" % t, "accepts the malformed document %s" % t, lambda p, st: mkstr(p, st, "s", list(t.encode())))


def numbers(rep, T):
    rule = "number grammar"
    fn = "nx_json_tree_from_string"
    m = kernels([(fn, fn, None)], opaque=["nx_fstr"], name="p17x")
    legal = re.compile(r"-?(0|[1-9]\d*)(\.\d+)?([eE][+-]?\d+)?\Z")
    words = ["".join(w) for n in (1, 2, 3) for w in itertools.product("-07.e+", repeat=n)]
    words += ["".join(w) for w in itertools.product("-7", "07", ".eE7", "0-+7e")] + ["-7.0", "7.5e1", "7.5E+10", "-0.25", "-0e0", "0.0e-7", "10", "100", "-100", "7.05", "7e10", "123456789", "1e+", "1.5e", "1.5e-", "-1.5.2", "00.5", "-00", "1e5.5"]
    for w in dict.fromkeys(words):
        ok = bool(legal.match(w))
        t = list(("[" + w + "]").encode())
        init = lambda p, st: mkstr(p, st, "s", t)
        if ok:
            r = case(rep, rule, m, fn, w, init, roots=("s",), judge=lambda c, st: rep.check(agrees(c, tree(c, st, st.ret), ("a", [("n", w)]), T), rule, w + ": value", c.fn.where(), "parses to %s" % tshow(tree(c, st, st.ret))))
            rep.check(r is not None or any(x == w for x, _ in rep.undecided), rule, w + ": accepted", fn, "a legal number is rejected")
        else:
            never(rep, rule, m, fn, w + ": rejected", "accepts the malformed number %s" % w, init)


def mktree(p, st, v, T, base):
    """a tree in memory; returns pointer; node memory is named after its place"""
    register(p, st, base, 40)
    for f in ("text", "right", "down", "last_child"):
        set_field(p, st, base, N, f, Ptr("null", p.K(0)))
    t = {True: "TRUE", False: "FALSE", None: "NULL"}[v] if v is True or v is False or v is None else {"a": "ARRAY", "o": "OBJECT", "s": "STRING"}.get(v[0]) or ("FPNUMBER" if re.search("[.eE]", v[1]) else "INTEGER")
    set_field(p, st, base, N, "type", p.K(T[t]))
    if v is True or v is False or v is None:
        return base
    if v[0] in ("s", "n"):
        set_field(p, st, base, N, "text", mkstr(p, st, base + "t", v[1] if v[0] == "s" else list(v[1].encode())))
        return base
    kids = v[1] if v[0] == "a" else [x for nm, e in v[1] for x in (("s",) + nm, e)]
    prev = None
    for k, e in enumerate(kids):
        q = mktree(p, st, e, T, "%s.%d" % (base, k))
        if prev is None:
            set_field(p, st, base, N, "down", Ptr(q, p.K(0)))
        else:
            set_field(p, st, prev, N, "right", Ptr(q, p.K(0)))
        prev = q
    if prev:
        set_field(p, st, base, N, "last_child", Ptr(prev, p.K(0)))
    return base


ACC = {"OBJECT": ["OBJECT"], "ARRAY": ["ARRAY"], "STRING": ["STRING"], "INTEGER": ["INTEGER"], "FPNUMBER": ["FPNUMBER"], "NUMBER": ["INTEGER", "FPNUMBER"], "BOOL": ["TRUE", "FALSE"], "NULL": ["NULL"], "COMPOSITE": ["OBJECT", "ARRAY"], "TRUE": ["TRUE"], "FALSE": ["FALSE"]}


def kind(v):
    return {True: "TRUE", False: "FALSE", None: "NULL"}[v] if v is True or v is False or v is None else {"a": "ARRAY", "o": "OBJECT", "s": "STRING"}.get(v[0]) or ("FPNUMBER" if re.search("[.eE]", v[1]) else "INTEGER")


def access(rep, T):
    rule = "tree access"
    m = kernels([(f, f, None) for f in ("nx_json_array_get", "nx_json_object_get", "nx_json_array_fget", "nx_json_object_fget", "nx_json_node_n_children", "nx_json_node_is", "nx_json_node_is_a", "nx_json_node_type", "nx_json_node_text")], name="p17a")
    arr = [I, F, S("c0"), True, None, ("a", [I]), ("o", [])]
    for n in (0, 1, 3, 7):
        v = ("a", arr[:n])
        for pos in range(n + 2):
            for want in ACC:
                if want not in T:
                    continue
                ok = pos < n and kind(arr[pos]) in ACC[want]
                inst = "nx_json_array_get(%d elements, %d, %s)" % (n, pos, want)
                case(rep, rule, m, "nx_json_array_get", inst, lambda p, st: mktree(p, st, v, T, "jarray"), {1: pos, 2: T[want]}, roots=("jarray",), judge=lambda c, st: rep.check(isinstance(st.ret, Ptr) and st.ret.base == ("jarray.%d" % pos if ok else "null"), rule, inst, c.fn.where(), "returns %s" % (st.ret,)))
                if want in ("INTEGER", "NUMBER"):
                    i2 = inst.replace("_get", "_fget")
                    if ok:
                        case(rep, rule, m, "nx_json_array_fget", i2, lambda p, st: mktree(p, st, v, T, "jarray"), {1: pos, 2: T[want]}, roots=("jarray",), judge=lambda c, st: rep.check(isinstance(st.ret, Ptr) and st.ret.base == "jarray.%d" % pos, rule, i2, c.fn.where(), "returns %s" % (st.ret,)))
                    else:
                        never(rep, rule, m, "nx_json_array_fget", i2 + ": fatal", "returns although there is no such element", lambda p, st: mktree(p, st, v, T, "jarray"), {1: pos, 2: T[want]})
        inst = "nx_json_node_n_children(%d elements)" % n
        case(rep, rule, m, "nx_json_node_n_children", inst, lambda p, st: mktree(p, st, v, T, "node"), {}, roots=("node",), judge=lambda c, st: rep.check(isval(st.ret, c.K(n)), rule, inst, c.fn.where(), "returns %s" % st.ret))
    # members by name: names are concrete, the value's own text may equal a name
    names = ["a", "b", "ab", ""]
    mem = [("a", I), ("ab", ("s", list(b"b"))), ("b", True), ("c", ("s", list(b"d"))), ("b", None)]
    for n in range(len(mem) + 1):
        v = ("o", [((list(k.encode()),), e) for k, e in mem[:n]])
        for nm in ("a", "b", "ab", "c", "d", "", "abc"):
            for want in ("INTEGER", "STRING", "BOOL", "OBJECT"):
                if want not in T:
                    continue
                k = next((k for k in range(n) if mem[k][0] == nm), None)
                ok = k is not None and kind(mem[k][1]) in ACC[want]
                inst = "nx_json_object_get(%d members, '%s', %s)" % (n, nm, want)

                def init(p, st):
                    mktree(p, st, v, T, "jobject")
                    mkstr(p, st, "name", list(nm.encode()))
                case(rep, rule, m, "nx_json_object_get", inst, init, {2: T[want]}, roots=("jobject", "name"), judge=lambda c, st: rep.check(isinstance(st.ret, Ptr) and st.ret.base == ("jobject.%d" % (2 * k + 1) if ok else "null"), rule, inst, c.fn.where(), "returns %s" % (st.ret,)))
                if not ok and want == "INTEGER":
                    never(rep, rule, m, "nx_json_object_fget", inst.replace("_get", "_fget") + ": fatal", "returns although there is no such member", init, {2: T[want]})
                elif ok:
                    i2 = inst.replace("_get", "_fget")
                    case(rep, rule, m, "nx_json_object_fget", i2, init, {2: T[want]}, roots=("jobject", "name"), judge=lambda c, st: rep.check(isinstance(st.ret, Ptr) and st.ret.base == "jobject.%d" % (2 * k + 1), rule, i2, c.fn.where(), "returns %s" % (st.ret,)))
    for v in ATOMS:
        # access of something that is not a composite finds nothing
        if kind(v) != "ARRAY":
            inst = "nx_json_array_get(%s)" % show(v)
            case(rep, rule, m, "nx_json_array_get", inst, lambda p, st: mktree(p, st, v, T, "jarray"), {1: 0, 2: T["VALUE"] if "VALUE" in T else T["INTEGER"]}, roots=("jarray",), judge=lambda c, st: rep.check(isinstance(st.ret, Ptr) and st.ret.base == "null", rule, inst, c.fn.where(), "returns %s" % (st.ret,)))
        for want in ACC:
            if want not in T:
                continue
            for f, ok in (("nx_json_node_is", T[kind(v)] == T[want]), ("nx_json_node_is_a", kind(v) in ACC[want])):
                inst = "%s(%s, %s)" % (f, show(v), want)
                case(rep, rule, m, f, inst, lambda p, st: mktree(p, st, v, T, "node"), {1: T[want]}, roots=("node",), judge=lambda c, st: rep.check(isinstance(st.ret, R) and (c.p.sign_under(st.cons, st.ret) == ZERO) == (not ok), rule, inst, c.fn.where(), "returns %s" % st.ret))


def building(rep, T):
    rule = "tree building"
    news = {"nx_json_node_new_object": ("o", []), "nx_json_node_new_array": ("a", []), "nx_json_node_new_true": True, "nx_json_node_new_false": False, "nx_json_node_new_null": None}
    txts = {"nx_json_node_new_string": "STRING", "nx_json_node_new_integer": "INTEGER", "nx_json_node_new_fpnumber": "FPNUMBER"}
    m = kernels([(f, f, None) for f in list(news) + list(txts) + ["nx_json_array_add", "nx_json_object_add"]], name="p17b")
    for f, v in news.items():
        case(rep, rule, m, f, f, judge=lambda c, st: rep.check(agrees(c, tree(c, st, st.ret), v, T), rule, f, c.fn.where(), "creates %s" % tshow(tree(c, st, st.ret))))
    for f, t in txts.items():
        for n in (0, 2):
            X = ["x%d" % k for k in range(n)]
            inst = "%s(%d characters)" % (f, n)
            case(rep, rule, m, f, inst, lambda p, st: mkstr(p, st, "text", X), roots=("text",), judge=lambda c, st: rep.check(tree(c, st, st.ret)[0] == T[t] and samestr(c, tree(c, st, st.ret)[1], X) and not tree(c, st, st.ret)[2], rule, inst, c.fn.where(), "creates %s" % tshow(tree(c, st, st.ret))))
    for n in range(4):
        for e in (I, ("a", [I, F]), ("o", [(NM("k"), True)])):
            kids = [I, ("a", [True]), S("c0")][:n]
            inst = "nx_json_array_add(%d elements, %s)" % (n, show(e))

            def init(p, st):
                mktree(p, st, ("a", kids), T, "jarray")
                mktree(p, st, e, T, "node")
            case(rep, rule, m, "nx_json_array_add", inst, init, roots=("jarray",), judge=lambda c, st: (rep.check(agrees(c, tree(c, st, Ptr("jarray", c.K(0))), ("a", kids + [e]), T), rule, inst, c.fn.where(), "becomes %s" % tshow(tree(c, st, Ptr("jarray", c.K(0))))),
                                                                                                     rep.check(isinstance(st.ret, Ptr) and st.ret.base == "node", rule, inst + ": returns the node", c.fn.where(), "returns %s" % (st.ret,))))
            mem = [(NM("k%d" % k), x) for k, x in enumerate(kids)]
            i2 = "nx_json_object_add(%d members, %s)" % (n, show(e))

            def init2(p, st):
                mktree(p, st, ("o", mem), T, "jobject")
                mktree(p, st, e, T, "node")
                mkstr(p, st, "name", ["x", "y"])
            case(rep, rule, m, "nx_json_object_add", i2, init2, roots=("jobject", "name"), judge=lambda c, st: (rep.check(agrees(c, tree(c, st, Ptr("jobject", c.K(0))), ("o", mem + [(NM("x", "y"), e)]), T), rule, i2, c.fn.where(), "becomes %s" % tshow(tree(c, st, Ptr("jobject", c.K(0))))),
                                                                                                            rep.check(isinstance(st.ret, Ptr) and st.ret.base == "node", rule, i2 + ": returns the node", c.fn.where(), "returns %s" % (st.ret,))))


def chained(st0):
    def init(p, st):
        st.mem, st.cons, st.events = dict(st0.mem), list(st0.cons), [e for e in st0.events if e[0] in ("blk", "released")]
        for e in st.events:
            if e[0] == "blk":
                p.exists.add(e[1])
    return init


def texts_of(t):
    out = [t[1]] if t[1] is not None else []
    for k in t[2]:
        out += texts_of(k)
    return out


def bundles(rep, T):
    rule = "bundle"
    pairs = [("bool", "i"), ("char", "i"), ("uchar", "i"), ("int", "i"), ("size_t", "i"), ("float", "f"), ("double", "f")]
    fns = ["nx_json_bundle_" + a for a, _ in pairs] + ["nx_json_unbundle_" + a for a, _ in pairs]
    for a in ("string", "int_array", "float_array", "double_array", "string_array", "keypoint", "keypoint_array"):
        fns += ["nx_json_bundle_" + a, "nx_json_unbundle_" + a]
    fns.append("nx_json_unbundle_as_string_array")
    m = kernels([(f, f, None) for f in fns], opaque=["nx_fstr"], name="p17u")

    def lex_ok(c, st, q, inst):
        """printed numbers keep their kind when the text is read again"""
        def walk(t):
            if t is None:
                return
            if t[0] in (T["FPNUMBER"], T["INTEGER"]) and t[1]:
                fs = [c.ctx.__dict__.get("numbers", {}).get(b.show()) for b in t[1]]
                fs = [f for f in fs if f]
                for f, v in fs:
                    if t[0] == T["FPNUMBER"]:
                        rep.check(f[-1] in "eE", rule, inst + ": stays a floating-point number", c.fn.where(), "a whole number printed with %s is read back as an integer" % f)
                    else:
                        rep.check(f in INTFMT, rule, inst + ": stays an integer", c.fn.where(), "an integer is printed with %s" % f)
            for k in t[2]:
                walk(k)
        walk(tree(c, st, q))

    # scalars
    for a, k in pairs:
        fn, un = "nx_json_bundle_" + a, "nx_json_unbundle_" + a
        arg = m.functions.get("vk$" + fn)
        if a == "bool":
            for v in (0, 1):
                inst = "bool %d" % v
                ctx = Ctx()
                c = case(rep, rule, m, fn, inst, None, {0: v}, ctx=ctx)
                for st0 in (c.parts if c else []):
                    case(rep, rule, m, un, inst + " unbundled", chained(st0), {0: st0.ret}, ctx=ctx, roots=(st0.ret.base,), judge=lambda c, st: rep.check(isval(st.ret, c.K(v)), rule, inst + ": same value", c.fn.where(), "becomes %s" % st.ret))
            continue
        inst = a + " value"
        ctx = Ctx()
        lo = {"uchar": (0, 255), "char": (1, 127)}.get(a)

        def pre(p):
            v = p.V("v")
            return [(v - lo[0], ZERO | POS), (v - lo[1], NEG | ZERO)] if lo else [(v, ZERO | POS)] if a == "size_t" else []
        c = case(rep, rule, m, fn, inst, None, {0: R.var(ctx, "v")}, ctx=ctx, pre=pre)
        for st0 in (c.parts if c else []):
            lex_ok(c, st0, st0.ret, inst)
            case(rep, rule, m, un, inst + " unbundled", chained(st0), {0: st0.ret}, ctx=ctx, roots=(st0.ret.base,), judge=lambda c, st: rep.check(isval(st.ret, c.V("v")), rule, inst + ": same value", c.fn.where(), "%s becomes %s" % ("v", st.ret)))
    # strings and arrays
    for n in (0, 1, 3):
        X = ["x%d" % k for k in range(n)]
        inst = "string of %d characters" % n
        ctx = Ctx()
        c = case(rep, rule, m, "nx_json_bundle_string", inst, lambda p, st: mkstr(p, st, "s", X), ctx=ctx, roots=("s",))
        for st0 in (c.parts if c else []):
            case(rep, rule, m, "nx_json_unbundle_string", inst + " unbundled", chained(st0), {0: st0.ret}, ctx=ctx, roots=(st0.ret.base, "s"), judge=lambda c, st: rep.check(samestr(c, getstr(c, st, st.ret), X) and st.ret.base not in {q.base for q in slots(c, st, st0.ret.base, 40)}, rule, inst + ": same text", c.fn.where(), "becomes %s" % (getstr(c, st, st.ret),)))
    for a, sz, ty in (("int", 4, "i32"), ("float", 4, "float"), ("double", 8, "double")):
        for n in (0, 1, 3):
            inst = "array of %d %ss" % (n, a)
            ctx = Ctx()
            c = case(rep, rule, m, "nx_json_bundle_%s_array" % a, inst, lambda p, st: register(p, st, "x", sz * n), {0: n}, ctx=ctx, roots=("x",))
            for st0 in (c.parts if c else []):
                lex_ok(c, st0, st0.ret, inst)

                def init(p, st):
                    chained(st0)(p, st)
                    register(p, st, "n", 4)

                def j(c, st, c0=c):
                    rep.check(isval(ld(c, st, "n", 0, 4, "i32"), c.K(n)), rule, inst + ": length", c.fn.where(), "length %s" % ld(c, st, "n", 0, 4, "i32"))
                    got = [ld(c, st, st.ret.base, sz * k, sz, ty) for k in range(n)]
                    rep.check(all(isval(g, orig(c0, "x", sz * k, sz, ty)) for k, g in enumerate(got)), rule, inst + ": elements", c.fn.where(), "becomes %s" % [str(g) for g in got])
                case(rep, rule, m, "nx_json_unbundle_%s_array" % a, inst + " unbundled", init, {0: st0.ret, 1: ("n", 0)}, ctx=ctx, roots=(st0.ret.base, "x", "n"), judge=j)
    for strs in ([], [["a0"]], [["a0", "a1"], [], ["b0"]]):
        inst = "array of %d strings" % len(strs)
        ctx = Ctx()

        def init(p, st):
            register(p, st, "x", 8 * len(strs))
            for k, s in enumerate(strs):
                st.mem["x"] = Entry("store", p.K(8 * k), 8, mkstr(p, st, "heapx%d" % k, s), st.mem.get("x"))
        c = case(rep, rule, m, "nx_json_bundle_string_array", inst, init, {0: len(strs)}, ctx=ctx, roots=("x",))
        for st0 in (c.parts if c else []):
            def init2(p, st):
                chained(st0)(p, st)
                register(p, st, "n", 4)
            case(rep, rule, m, "nx_json_unbundle_string_array", inst + " unbundled", init2, {0: st0.ret, 1: ("n", 0)}, ctx=ctx, roots=(st0.ret.base, "x", "n"), judge=lambda c, st: rep.check(isval(ld(c, st, "n", 0, 4, "i32"), c.K(len(strs))) and all(samestr(c, getstr(c, st, ld(c, st, st.ret.base, 8 * k, 8, "ptr")), s) for k, s in enumerate(strs)), rule, inst + ": elements", c.fn.where(), "differs"))
            case(rep, rule, m, "nx_json_unbundle_as_string_array", inst + " unbundled as string array", init2, {0: st0.ret}, ctx=ctx, roots=(st0.ret.base, "x", "n"), judge=lambda c, st: rep.check(elems(c, st, st.ret.base) is not None and len(elems(c, st, st.ret.base)) == len(strs) and all(samestr(c, g, s) for g, s in zip(elems(c, st, st.ret.base), strs)), rule, inst + ": elements of the string array", c.fn.where(), "differs"))
    # keypoints
    for n in (None, 0, 1, 2):
        inst = "keypoint" if n is None else "array of %d keypoints" % n
        cnt = 1 if n is None else n
        ctx = Ctx()
        f = "keypoint" if n is None else "keypoint_array"
        c = case(rep, rule, m, "nx_json_bundle_" + f, inst, lambda p, st: register(p, st, "key", 48 * cnt), {} if n is None else {0: n}, ctx=ctx, roots=("key",), deadline=120)
        for st0 in (c.parts if c else []):
            lex_ok(c, st0, st0.ret, inst)

            def init3(p, st):
                chained(st0)(p, st)
                register(p, st, "n", 4)
                register(p, st, "agg.result", 48)

            def j(c, st, c0=c):
                base = "agg.result" if n is None else st.ret.base
                if n is not None:
                    rep.check(isval(ld(c, st, "n", 0, 4, "i32"), c.K(n)), rule, inst + ": length", c.fn.where(), "length %s" % ld(c, st, "n", 0, 4, "i32"))
                for k in range(cnt):
                    for fl, sz, ty in KEY:
                        off, _ = field_off(c.p, "NXKeypoint", fl)
                        g, w = ld(c, st, base, 48 * k + off, sz, ty), orig(c0, "key", 48 * k + off, sz, ty)
                        rep.check(isval(g, w), rule, inst + ": field %s" % fl, c.fn.where(), "%s becomes %s" % (w, g))
            args = {0: ("agg.result", 0), 1: st0.ret} if n is None else {0: st0.ret, 1: ("n", 0)}
            case(rep, rule, m, "nx_json_unbundle_" + f, inst + " unbundled", init3, args, ctx=ctx, roots=(st0.ret.base, "key", "n", "agg.result"), judge=j, deadline=120)


def logs(rep, T):
    rule = "JSON log"
    m = kernels([(f, f, None) for f in ("nx_json_log_get_stream", "nx_json_log_clear_stream", "nx_json_log_free")], name="p17l")
    G = "@nx_s_json_log"
    f = m.functions.get("vk$nx_json_log_get_stream")
    nstreams = None

    def table(p, st, full, size):
        register(p, st, "heaptab", 8 * size)
        for k in range(size):
            q = Ptr("null", p.K(0))
            if k in full:
                mktree(p, st, ("o", [(NM("k"), I)]), T, "heapn%d" % k)
                q = Ptr("heapn%d" % k, p.K(0))
            st.mem["heaptab"] = Entry("store", p.K(8 * k), 8, q, st.mem.get("heaptab"))
        st.mem[G] = Entry("store", p.K(0), 8, Ptr("heaptab", p.K(0)), None)

    def empty(p, st):
        st.mem[G] = Entry("store", p.K(0), 8, Ptr("null", p.K(0)), None)
    ctx = Ctx()
    c = case(rep, rule, m, "nx_json_log_get_stream", "first use", empty, {0: 0}, ctx=ctx, roots=(G,))
    if c is None or not c.parts:
        return
    tab = ld(c, c.parts[0], G, 0, 8, "ptr")
    size = int(block(c.parts[0], tab.base)[0].cval()) // 8 if isinstance(tab, Ptr) and block(c.parts[0], tab.base) else 0
    for k in range(size):
        inst = "nx_json_log_get_stream(%d) first" % k
        case(rep, rule, m, "nx_json_log_get_stream", inst, empty, {0: k}, roots=(G,), judge=lambda c, st: (rep.check(agrees(c, tree(c, st, st.ret), ("o", []), T), rule, inst + ": empty object", c.fn.where(), "returns %s" % tshow(tree(c, st, st.ret))),
                                                                                                       rep.check([ld(c, st, tab.base if 0 else ld(c, st, G, 0, 8, "ptr").base, 8 * j, 8, "ptr").base for j in range(size)] == [st.ret.base if j == k else "null" for j in range(size)], rule, inst + ": only this stream", c.fn.where(), "other streams change")))
        for full in ([], [k], list(range(size))):
            i2 = "nx_json_log_get_stream(%d), streams %s in use" % (k, full)
            case(rep, rule, m, "nx_json_log_get_stream", i2, lambda p, st: table(p, st, full, size), {0: k}, roots=(G,), judge=lambda c, st: (rep.check(isinstance(st.ret, Ptr) and (st.ret.base == "heapn%d" % k if k in full else agrees(c, tree(c, st, st.ret), ("o", []), T)), rule, i2, c.fn.where(), "returns %s" % (st.ret,)),
                                                                                                                                       rep.check(isinstance(ld(c, st, "heaptab", 8 * k, 8, "ptr"), Ptr) and ld(c, st, "heaptab", 8 * k, 8, "ptr").base == st.ret.base, rule, i2 + ": remembered", c.fn.where(), "the stream is not kept")))
            i3 = "nx_json_log_clear_stream(%d), streams %s in use" % (k, full)
            case(rep, rule, m, "nx_json_log_clear_stream", i3, lambda p, st: table(p, st, full, size), {0: k}, roots=(G,), judge=lambda c, st: rep.check(ld(c, st, "heaptab", 8 * k, 8, "ptr").base == "null" and all(ld(c, st, "heaptab", 8 * j, 8, "ptr").base == ("heapn%d" % j if j in full else "null") for j in range(size) if j != k), rule, i3, c.fn.where(), "the wrong streams are cleared"))
    for k in (-1, size, size + 3):
        never(rep, rule, m, "nx_json_log_get_stream", "stream id %d: fatal" % k, "accepts a stream id outside the table", empty, {0: k})
        never(rep, rule, m, "nx_json_log_clear_stream", "clear stream id %d: fatal" % k, "accepts a stream id outside the table", lambda p, st: table(p, st, [], size), {0: k})
    for full in ([], [0], list(range(size))):
        inst = "nx_json_log_free, streams %s in use" % full
        case(rep, rule, m, "nx_json_log_free", inst, lambda p, st: table(p, st, full, size), roots=(G,), judge=lambda c, st: rep.check(ld(c, st, G, 0, 8, "ptr").base == "null" and "heaptab" in free_of(c, st), rule, inst, c.fn.where(), "the table is not released"))
