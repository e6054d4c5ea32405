"""Resolved-program model: loads an irdump file; functions, CFG, dominators, loops, types."""
import json, os
from collections import defaultdict
import frontend as fe
from frontend import AnalysisBroken


class Instr:
    __slots__ = ("i", "op", "d", "b", "pos", "fn")

    def __init__(self, d, b, pos, fn):
        self.i = d["i"]; self.op = d["op"]; self.d = d; self.b = b; self.pos = pos; self.fn = fn

    def __repr__(self):
        return "<%%%d %s @%s>" % (self.i, self.op, self.loc())

    @property
    def callee(self):
        return self.d.get("f") if self.op == "call" else None

    @property
    def args(self):
        return self.d.get("a", [])

    def line(self):
        return self.d.get("l", [0, 0])[1]

    def loc(self):
        l = self.d.get("l")
        if not l:
            return "%s:?" % self.fn.relfile()
        f = self.fn.prog.files[l[0]]
        return "%s:%d" % (rel(f), l[1])


def rel(f):
    r = fe.REPO + "/"
    return f[len(r):] if f.startswith(r) else f


class Function:
    def __init__(self, prog, d):
        self.prog = prog
        self.name = d["name"]
        self.file = d.get("file", 0)
        self.line = d.get("line", 0)
        self.static = d["static"]
        self.args = d["args"]           # [name, ditype, llty]
        self.ret = d.get("ret", "void")
        self.dbg = d["dbg"]             # [ref, var, type, isdeclare, exprlen, inlined]
        self.blocks = []
        self.ins = {}
        for b, il in enumerate(d["blocks"]):
            bl = [Instr(x, b, k, self) for k, x in enumerate(il)]
            self.blocks.append(bl)
            for x in bl:
                self.ins[x.i] = x
        self._c = {}

    def relfile(self):
        return rel(self.prog.files[self.file])

    def where(self):
        return "%s:%d" % (self.relfile(), self.line)

    def instrs(self):
        for b in self.blocks:
            yield from b

    def calls(self, *names):
        s = set(names)
        return [x for x in self.instrs() if x.op == "call" and (not s or x.callee in s)]

    # ---- CFG
    def succs(self, b):
        t = self.blocks[b][-1]
        return t.d.get("s", []) if t.op in ("br", "switch") else []

    def preds(self):
        if "p" not in self._c:
            p = defaultdict(list)
            for b in range(len(self.blocks)):
                for s in self.succs(b):
                    p[s].append(b)
            self._c["p"] = p
        return self._c["p"]

    def exits(self):
        return [b for b in range(len(self.blocks)) if self.blocks[b][-1].op == "ret"]

    def rpo(self):
        if "rpo" not in self._c:
            seen = set(); out = []
            st = [(0, iter(self.succs(0)))]; seen.add(0)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s); st.append((s, iter(self.succs(s)))); break
                else:
                    out.append(b); st.pop()
            self._c["rpo"] = out[::-1]
        return self._c["rpo"]

    def idom(self):
        if "idom" not in self._c:
            order = self.rpo(); idx = {b: i for i, b in enumerate(order)}
            p = self.preds(); idom = {0: 0}
            ch = True
            while ch:
                ch = False
                for b in order[1:]:
                    new = None
                    for q in p[b]:
                        if q in idom:
                            if new is None:
                                new = q
                            else:
                                x, y = q, new
                                while x != y:
                                    while idx[x] > idx[y]:
                                        x = idom[x]
                                    while idx[y] > idx[x]:
                                        y = idom[y]
                                new = x
                    if new is not None and idom.get(b) != new:
                        idom[b] = new; ch = True
            self._c["idom"] = idom
        return self._c["idom"]

    def bdom(self, a, b):
        """block a dominates block b"""
        id_ = self.idom()
        while True:
            if a == b:
                return True
            if b == 0 or b not in id_:
                return False
            b = id_[b]

    def dom(self, x, y):
        """instruction x dominates instruction y"""
        if x.b == y.b:
            return x.pos < y.pos
        return self.bdom(x.b, y.b)

    def loops(self):
        """{header: set(blocks)} natural loops"""
        if "loops" not in self._c:
            L = {}
            p = self.preds()
            for b in self.rpo():
                for s in self.succs(b):
                    if self.bdom(s, b):
                        body = L.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x not in body:
                                body.add(x); st.extend(p[x])
            self._c["loops"] = L
        return self._c["loops"]

    def loop_nest(self, b):
        """headers of loops containing block b, outermost first"""
        L = self.loops()
        hs = [h for h in L if b in L[h]]
        return sorted(hs, key=lambda h: -len(L[h]))

    def reach(self, start, avoid=()):
        seen = set(); st = [start]
        while st:
            b = st.pop()
            if b in seen or b in avoid:
                continue
            seen.add(b); st.extend(self.succs(b))
        return seen

    # ---- values
    def val(self, ref):
        return self.ins.get(ref) if isinstance(ref, int) else None

    def users(self):
        if "u" not in self._c:
            u = defaultdict(list)
            for x in self.instrs():
                for r in operands(x):
                    if isinstance(r, int):
                        u[r].append(x)
                    elif isinstance(r, list) and r and r[0] == "a":
                        u[("a", r[1])].append(x)
            self._c["u"] = u
        return self._c["u"]

    def uses_of(self, ref):
        k = ref if isinstance(ref, int) else ("a", ref[1])
        return self.users()[k]

    def varname(self, ref):
        for d in self.dbg:
            if d[0] == ref:
                return d[1]
        return None

    def vartypes(self, ref):
        return [d[2] for d in self.dbg if d[0] == ref]


def operands(x):
    d = x.d
    for r in d.get("a", []):
        yield r
    if "fp" in d:
        yield d["fp"]
    if "c" in d and x.op in ("br", "switch"):
        yield d["c"]
    for r in d.get("in_", []):
        yield r[0]
    if x.op == "getelementptr":
        yield d["b"]
        for v in d.get("v", []):
            yield v[0]
    if x.op == "alloca":
        yield d["n"]


class Program:
    def __init__(self, mods):
        """mods: list of modules, each a list of dump objects"""
        self.fns = {}
        self.structs = {}
        self.ll = {}
        self.enums = {}
        self.globals = {}
        self.files = []
        self.nmods = len(mods)
        fidx = {}
        for objs in mods:
            fmap = {}
            for o in objs:
                if o["k"] == "files":
                    for i, f in enumerate(o["f"]):
                        f = os.path.normpath(f)
                        if f not in fidx:
                            fidx[f] = len(self.files); self.files.append(f)
                        fmap[i] = fidx[f]
            ren = {}
            fnobjs = [o for o in objs if o["k"] == "fn"]
            for o in fnobjs:
                o["file"] = fmap.get(o.get("file", 0), 0)
                old = self.fns.get(o["name"])
                if old is not None:
                    if (old.file, old.line) == (o["file"], o["line"]):
                        o["skip"] = True
                    else:
                        ren[o["name"]] = "%s@%s" % (o["name"], os.path.basename(self.files[o["file"]]))
            for o in objs:
                k = o["k"]
                if k == "fn":
                    if o.get("skip"):
                        continue
                    if o["name"] in ren:
                        o["name"] = ren[o["name"]]
                    for bl in o["blocks"]:
                        for x in bl:
                            if "l" in x:
                                x["l"][0] = fmap[x["l"][0]]
                            if ren and x.get("f") in ren:
                                x["f"] = ren[x["f"]]
                    if ren:
                        _rename(o["blocks"], ren)
                    f = Function(self, o); self.fns[f.name] = f
                elif k == "st":
                    self.structs.setdefault(o["name"], o)
                elif k == "ll":
                    self.ll.setdefault(o["name"], o)
                elif k == "en":
                    self.enums.setdefault(o["name"], dict(o["m"]))
                elif k == "gv":
                    if o["name"] not in self.globals or "init" in o:
                        self.globals[o["name"]] = o

    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            raise AnalysisBroken("anchor function %s not found" % name)
        return f

    def string(self, ref):
        """constant C string a reference points to"""
        if isinstance(ref, list) and ref[0] == "g":
            g = self.globals.get(ref[1])
            if g and "str" in g:
                return g["str"].rstrip("\0")
            if g is not None and g.get("init") == ["z"]:
                return ""
        return None

    def never_written(self, name):
        """a global that is only ever loaded from"""
        if not hasattr(self, "_written"):
            w = set()

            def scan(v):
                if isinstance(v, list):
                    if len(v) == 2 and v[0] == "g" and isinstance(v[1], str):
                        w.add(v[1])
                    else:
                        for y in v:
                            scan(y)
                elif isinstance(v, dict):
                    for y in v.values():
                        scan(y)
            for f in self.fns.values():
                for x in f.instrs():
                    if x.op != "load":
                        for k, v in x.d.items():
                            if isinstance(v, (list, dict)):
                                scan(v)
            self._written = w
        return name not in self._written

    def field_at(self, sname, off):
        """(member name, type, member offset bytes, size bytes) at byte offset"""
        st = self.structs.get(sname)
        if not st:
            return None
        for n, bo, bs, ty in st["m"]:
            if bo // 8 <= off < bo // 8 + max(1, bs // 8):
                return n, ty, bo // 8, bs // 8
        return None

    def callers(self):
        c = defaultdict(list)
        for f in self.fns.values():
            for x in f.instrs():
                if x.op == "call" and x.callee:
                    c[x.callee].append(x)
        return c


_cache = {}


def _rename(v, ren):
    if isinstance(v, list):
        if len(v) == 2 and v[0] == "g" and v[1] in ren:
            v[1] = ren[v[1]]
        else:
            for w in v:
                _rename(w, ren)
    elif isinstance(v, dict):
        for w in v.values():
            _rename(w, ren)


def program(config, **kw):
    k = (config, tuple(sorted((a, tuple(b) if isinstance(b, (list, tuple)) else b) for a, b in kw.items())))
    if k not in _cache:
        _cache[k] = Program([[json.loads(l) for l in open(p)] for p in fe.dump_paths(config, **kw)])
    return _cache[k]


def strip_casts(fn, ref):
    """follow casts (and trivial phis) back to the source value"""
    seen = 0
    while isinstance(ref, int) and seen < 50:
        x = fn.ins[ref]
        if x.op in ("bitcast", "ptrtoint", "inttoptr", "trunc", "zext", "sext", "freeze"):
            ref = x.args[0]
        elif x.op == "getelementptr" and x.d.get("o") == 0 and not x.d.get("v"):
            ref = x.d["b"]
        else:
            break
        seen += 1
    return ref


def ptr_base(fn, ref):
    """(base ref, constant byte offset or None if variable) through GEPs/casts"""
    off = 0
    for _ in range(60):
        if isinstance(ref, int):
            x = fn.ins[ref]
            if x.op == "getelementptr":
                if x.d.get("o") is None or x.d.get("v"):
                    off = None
                elif off is not None:
                    off += x.d["o"]
                ref = x.d["b"]; continue
            if x.op in ("bitcast", "addrspacecast"):
                ref = x.args[0]; continue
        elif isinstance(ref, list) and ref and ref[0] == "ge":
            if off is not None:
                off += ref[2]
            ref = ref[1]; continue
        break
    return ref, off
