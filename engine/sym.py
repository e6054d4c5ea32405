"""Symbolic values: polynomials over atoms (arguments, memory cells, call results), ideal integers.
Casts are transparent.  Memory cells are named by (base, constant offset, symbolic index terms)."""
from ir import ptr_base

PURE = {"strlen", "PDC_get_var_type_size", "PDC_get_data_type_size", "get_datatype_size"}


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t=None):
        self.t = {k: v for k, v in (t or {}).items() if v}
        self._h = None

    @staticmethod
    def c(n):
        return Poly({(): n})

    @staticmethod
    def a(atom):
        return Poly({(atom,): 1})

    def __add__(self, o):
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + v
        return Poly(t)

    def __neg__(self):
        return Poly({k: -v for k, v in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        t = {}
        for k, v in self.t.items():
            for k2, v2 in o.t.items():
                m = tuple(sorted(k + k2, key=repr))
                t[m] = t.get(m, 0) + v * v2
        return Poly(t)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def const(self):
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def atoms(self):
        return {a for m in self.t for a in m}

    def key(self):
        return tuple(sorted(self.t.items(), key=repr))

    def subst(self, f):
        """replace atoms by polynomials: f(atom) -> Poly or None"""
        r = Poly()
        for m, c in self.t.items():
            p = Poly.c(c)
            for a in m:
                q = f(a)
                p = p * (q if q is not None else Poly.a(a))
            r = r + p
        return r

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=repr):
            s = "*".join(fmt(a) for a in m)
            out.append(s if (c == 1 and s) else (("%d" % c) + ("*" + s if s else "")))
        return " + ".join(out)


def fmt(a):
    if isinstance(a, tuple):
        if a[0] == "arg":
            return "arg%s" % (a[1],)
        if a[0] == "ld":
            b, off = a[1], a[2]
            return "[%s%s]" % (fmt(b), "" if off == 0 else "+%s" % (fmt(off) if not isinstance(off, int) else off))
        if a[0] == "poly":
            return "(" + repr(Poly(dict(a[1]))) + ")"
        if a[0] == "name":
            return str(a[1])
        return "%s%s" % (a[0], list(map(fmt, a[1:])))
    return str(a)


class Sym:
    def __init__(self, fn, fwd=True):
        self.fn = fn; self.memo = {}; self.fwd = fwd
        self._stores = None

    def stores(self):
        """stores to directly addressed cells: (base ref key, off) -> [store instr]; plus escape info"""
        if self._stores is None:
            m = {}
            for x in self.fn.instrs():
                if x.op == "store":
                    b, o = ptr_base(self.fn, x.args[1])
                    if isinstance(b, int):
                        m.setdefault((b, o), []).append(x)
            self._stores = m
        return self._stores

    def poly(self, ref):
        if isinstance(ref, list):
            t = ref[0]
            if t == "c":
                return Poly.c(ref[1])
            if t in ("n", "z"):
                return Poly.c(0)
            if t == "a":
                return Poly.a(("arg", ref[1]))
            if t == "g":
                return Poly.a(("glob", ref[1]))
            if t == "ge":
                return self.poly(ref[1]) + Poly.c(ref[2])
            if t == "f":
                return Poly.a(("fl", ref[1]))
            return Poly.a(("unk", repr(ref)))
        if ref in self.memo:
            return self.memo[ref]
        self.memo[ref] = Poly.a(("v", ref))   # cut cycles
        p = self._poly(self.fn.ins[ref])
        self.memo[ref] = p
        return p

    def _poly(self, x):
        op = x.op
        P = self.poly
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze", "fpext"):
            return P(x.args[0])
        if op == "add":
            return P(x.args[0]) + P(x.args[1])
        if op == "sub":
            return P(x.args[0]) - P(x.args[1])
        if op == "mul":
            return P(x.args[0]) * P(x.args[1])
        if op == "shl":
            c = P(x.args[1]).const()
            if c is not None:
                return P(x.args[0]) * Poly.c(1 << c)
        if op in ("udiv", "sdiv", "urem", "srem", "lshr", "ashr", "and", "or", "xor"):
            a, b = P(x.args[0]), P(x.args[1])
            ca, cb = a.const(), b.const()
            nm = {"udiv": "div", "sdiv": "div", "urem": "rem", "srem": "rem"}.get(op, op)
            if nm in ("div", "lshr", "ashr") and cb is not None:
                d = cb if nm == "div" else (1 << cb)
                if d and all(v % d == 0 for v in a.t.values()):
                    return Poly({k: v // d for k, v in a.t.items()})
            return Poly.a((nm, ("poly", a.key()), ("poly", b.key())))
        if op == "getelementptr":
            d = x.d
            if d.get("o") is None:
                return Poly.a(("v", x.i))
            p = P(d["b"]) + Poly.c(d["o"])
            for r, sc in d["v"]:
                p = p + P(r) * Poly.c(sc)
            return p
        if op == "load":
            b, o = ptr_base(self.fn, x.args[0])
            if self.fwd and isinstance(b, int) and self.fn.ins[b].op == "alloca" and o is not None:
                ss = self.stores().get((b, o), [])
                if len(ss) == 1 and (b, None) not in self.stores() and self.fn.dom(ss[0], x) \
                        and not self._escapes(b):
                    return P(ss[0].args[0])
            ap = P(x.args[0])
            return Poly.a(("ld",) + split_addr(ap))
        if op == "phi":
            vs = [P(r) for r, _ in x.d["in_"] if r != x.i]
            if vs and all(v == vs[0] for v in vs):
                return vs[0]
            return Poly.a(("v", x.i))
        if op == "call" and x.callee in PURE:
            return Poly.a(("fn", x.callee) + tuple(("poly", P(r).key()) for r in x.args))
        return Poly.a(("v", x.i))

    def _escapes(self, b):
        fn = self.fn
        st = [b]; seen = set()
        while st:
            r = st.pop()
            if r in seen:
                continue
            seen.add(r)
            for u in fn.uses_of(r):
                if u.op in ("getelementptr", "bitcast", "phi", "select"):
                    st.append(u.i)
                elif u.op == "load":
                    pass
                elif u.op == "store" and u.args[0] != r:
                    pass
                elif u.op == "icmp":
                    pass
                else:
                    return True
        return False


def split_addr(ap):
    """address polynomial -> (base atom-ish, constant offset or poly key)"""
    const = ap.t.get((), 0)
    rest = {k: v for k, v in ap.t.items() if k != ()}
    if len(rest) == 1:
        (m, c), = rest.items()
        if len(m) == 1 and c == 1:
            return m[0], const
    return ("poly", Poly(rest).key()), const
