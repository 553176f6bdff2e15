"""Python view of the JSON that engine/irdump writes (LLVM IR, SSA)."""
import struct
from collections import defaultdict


class Instr:
    __slots__ = ("id", "op", "ty", "ops", "loc", "d", "block", "fn", "idx")

    def __init__(self, d, block, fn, idx):
        self.id = d["id"]
        self.op = d["op"]
        self.ty = d["ty"]
        self.ops = d.get("ops", [])
        self.loc = d.get("loc")
        self.d = d
        self.block = block
        self.fn = fn
        self.idx = idx

    @property
    def callee(self):
        return self.d.get("callee")

    @property
    def succ(self):
        return self.d.get("succ", [])

    def is_call(self):
        return self.op in ("call", "invoke")

    def where(self):
        return where(self.loc, self.fn)

    def __repr__(self):
        return "<%%%d %s %s @%s>" % (self.id, self.op, self.callee or "", self.where())


def rel(path):
    for p in ("/repo/",):
        if path and path.startswith(p):
            return path[len(p):]
    return path


def where(loc, fn=None):
    if not loc:
        return "%s (%s)" % (rel(fn.file) if fn is not None else "?", fn.name if fn is not None else "?")
    s = "%s:%d" % (rel(loc[0]), loc[1])
    s += " (%s)" % loc[2]
    if len(loc) > 3:
        s += " via " + " < ".join("%s:%d" % (rel(x[0]), x[1]) for x in loc[3])
    return s


class Block:
    __slots__ = ("id", "ins", "fn", "preds", "succs")

    def __init__(self, d, fn):
        self.id = d["id"]
        self.fn = fn
        self.ins = [Instr(i, self, fn, k) for k, i in enumerate(d["ins"])]
        self.preds = []
        self.succs = []

    @property
    def term(self):
        return self.ins[-1]


class Function:
    def __init__(self, d, mod):
        self.d = d
        self.mod = mod
        self.name = d["name"]
        self.decl = d["decl"]
        self.internal = d["internal"]
        self.noreturn = d["noreturn"]
        self.vararg = d.get("vararg", False)
        self.file = d.get("file", "")
        self.line = d.get("line", 0)
        self.args = d["args"]
        self.ret = d["ret"]
        self.ditypes = d.get("ditypes", [])
        self.blocks = [Block(b, self) for b in d.get("blocks", [])]
        self.val = {}
        for b in self.blocks:
            seen = []
            for s in b.term.succ:
                if s not in seen:
                    seen.append(s)
            b.succs = [self.blocks[s] for s in seen]
            for i in b.ins:
                self.val[i.id] = i
        for b in self.blocks:
            for s in b.succs:
                s.preds.append(b)
        self._users = None
        self._dom = None

    def where(self):
        return "%s:%d (%s)" % (rel(self.file), self.line, self.name)

    def instrs(self):
        for b in self.blocks:
            for i in b.ins:
                yield i

    def calls(self, name=None):
        for i in self.instrs():
            if i.is_call() and (name is None or i.callee == name):
                yield i

    def argname(self, k):
        return self.args[k]["name"]

    def is_arg(self, vid):
        return vid < len(self.args)

    @property
    def users(self):
        if self._users is None:
            u = defaultdict(list)
            for i in self.instrs():
                for o in all_operands(i):
                    for v in value_ids(o):
                        u[v].append(i)
            self._users = u
        return self._users

    def rpo(self):
        seen = set()
        out = []
        st = [(self.blocks[0], iter(self.blocks[0].succs))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s.id not in seen:
                    seen.add(s.id)
                    st.append((s, iter(s.succs)))
                    break
            else:
                out.append(b)
                st.pop()
        return out[::-1]

    @property
    def idom(self):
        if self._dom is None:
            order = self.rpo()
            num = {b.id: k for k, b in enumerate(order)}
            idom = {order[0].id: order[0].id}
            changed = True
            while changed:
                changed = False
                for b in order[1:]:
                    new = None
                    for p in b.preds:
                        if p.id in idom:
                            if new is None:
                                new = p.id
                            else:
                                x, y = p.id, new
                                while x != y:
                                    while num[x] > num[y]:
                                        x = idom[x]
                                    while num[y] > num[x]:
                                        y = idom[y]
                                new = x
                    if new is not None and idom.get(b.id) != new:
                        idom[b.id] = new
                        changed = True
            self._dom = idom
        return self._dom

    def dominates(self, a, b):
        """block a dominates block b"""
        idom = self.idom
        x = b.id
        while True:
            if x == a.id:
                return True
            if x not in idom or idom[x] == x:
                return False
            x = idom[x]

    def idominates(self, i, j):
        """instruction i dominates instruction j"""
        if i.block is j.block:
            return i.idx < j.idx
        return self.dominates(i.block, j.block)


def all_operands(i):
    for o in i.ops:
        yield o
    if i.op == "phi":
        for v, _ in i.d["inc"]:
            yield v
    if "fptr" in i.d:
        yield i.d["fptr"]


def value_ids(o):
    if o[0] == "v":
        yield o[1]
    elif o[0] == "ce":
        for x in o[2]:
            yield from value_ids(x)


class Module:
    def __init__(self, j):
        self.functions = {}
        for f in j["functions"]:
            self.functions[f["name"]] = Function(f, self)
        self.globals = {g["name"]: g for g in j["globals"]}
        self.structs = {s["name"]: s for s in j["structs"]}
        self.di = {}
        for t in j["ditypes"]:
            k = (t["kind"], t["name"])
            if k not in self.di or (self.di[k]["fwd"] and not t["fwd"]):
                self.di[k] = t

    def defined(self):
        return [f for f in self.functions.values() if not f.decl]

    def di_struct(self, llname):
        n = llname.lstrip("%")
        for p in ("struct.", "class.", "union."):
            if n.startswith(p):
                n = n[len(p):]
        n = n.split("::")[-1]
        parts = n.split(".")
        if parts[-1].isdigit():
            n = ".".join(parts[:-1])
        return self.di.get(("struct", n)) or self.di.get(("union", n))

    def field_name(self, llname, off):
        """name of the member of struct llname that starts at byte offset off"""
        s = self.di_struct(llname)
        if not s:
            return None
        for e in s["els"]:
            if e[1] == off:
                return e[0]
        return None

    def enum(self, name):
        e = self.di.get(("enum", name))
        return {k: v for k, v in e["els"]} if e else None


def fconst(o):
    """exact double value of an ["f", hex, ty] operand"""
    return struct.unpack(">d", bytes.fromhex(o[1]))[0]


def cstr(mod, name):
    """bytes of a constant C-string global, or None"""
    g = mod.globals.get(name)
    if not g or "init" not in g:
        return None
    i = g["init"]
    if i[0] == "str":
        b = bytes(i[1])
        return b[:-1] if b.endswith(b"\0") else b
    if i[0] == "zero":
        return b""
    return None


def strip_di(t):
    """drop const/volatile/typedef/restrict layers"""
    while t and t[0] in ("const", "volatile", "restrict", "typedef"):
        t = t[-1]
    return t
