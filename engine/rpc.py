"""RPC model shared by several rules: registrations, forward sites, handlers, bulk continuations."""
import ir
from frontend import AnalysisBroken


def alloca_struct(fn, ref):
    """struct name of the object a pointer refers to (alloca, argument or typed local pointer)"""
    b, o = ir.ptr_base(fn, ref)
    if isinstance(b, int):
        x = fn.ins[b]
        if x.op == "alloca":
            ts = {t for r, n, t, decl, ne, inl in fn.dbg if r == b and decl}
            if len(ts) == 1:
                t = ts.pop()
                while t.endswith("]"):
                    t = t[:t.rindex("[")]
                if t.startswith("struct ") and not t.endswith("*"):
                    return field_struct(fn.prog, t[7:], o)
                return None
            if x.d["at"].startswith("S:"):
                return field_struct(fn.prog, x.d["at"][2:], o)
            m = x.d["at"]
            if "%struct." in m:
                return ir_struct_in(m)
            return None
        if x.op in ("call", "load", "phi"):
            ts = {t for t in fn.vartypes(b) if t.startswith("struct ") and t.endswith("*") and not t.endswith("**")}
            if len(ts) == 1:
                return field_struct(fn.prog, ts.pop()[7:-1], o)
            if x.op == "load":
                t = load_type(fn, x)
                if t and t.startswith("struct ") and t.endswith("*") and not t.endswith("**"):
                    return field_struct(fn.prog, t[7:-1], o)
    if isinstance(b, list) and b and b[0] == "a":
        t = fn.args[b[1]][1]
        ts = {t} | {d[2] for d in fn.dbg if d[0] == b}
        ts = {t for t in ts if t.startswith("struct ") and t.endswith("*") and not t.endswith("**")}
        if len(ts) == 1:
            return field_struct(fn.prog, ts.pop()[7:-1], o)
    return None


def ir_struct_in(m):
    k = m.index("%struct.") + 8
    e = k
    while e < len(m) and (m[e].isalnum() or m[e] in "_."):
        e += 1
    s = m[k:e]
    while s and s.rsplit(".", 1)[-1].isdigit() and "." in s:
        s = s.rsplit(".", 1)[0]
    return s


def field_struct(P, s, off):
    if not off:
        return s
    f = P.field_at(s, off)
    if f and f[1].startswith("struct ") and not f[1].endswith("*"):
        return field_struct(P, f[1][7:], off - f[2])
    return None


def load_type(fn, x):
    """declared type of the cell a load reads (through the GEP's structure path)"""
    a = x.args[0]
    y = fn.val(a)
    if y is not None and y.op == "getelementptr":
        p = [e for e in y.d.get("p", []) if e[0] == "S"]
        if p:
            e = p[-1]
            f = fn.prog.field_at(e[1], e[3])
            if f:
                return f[1]
    return None


def field_of(fn, ref):
    """('struct', 'field') of the cell an address refers to, if it is a structure member"""
    y = fn.val(ref)
    while y is not None and y.op in ("bitcast",):
        y = fn.val(y.args[0])
    if y is not None and y.op == "getelementptr":
        p = [e for e in y.d.get("p", []) if e[0] == "S"]
        if p:
            e = p[-1]
            f = fn.prog.field_at(e[1], e[3])
            if f:
                return e[1], f[0]
    if isinstance(ref, list) and ref[0] == "ge":
        p = [e for e in ref[3] if e[0] == "S"]
        if p:
            f = fn.prog.field_at(p[-1][1], p[-1][3])
            if f:
                return p[-1][1], f[0]
    # first field: pointer to the structure itself
    s = alloca_struct(fn, ref)
    if s:
        b, o = ir.ptr_base(fn, ref)
        f = fn.prog.field_at(s, 0)
        if f:
            return s, f[0]
    return None


def proc_type(P, ref):
    """message struct of a hg_proc_* reference, None for void"""
    if isinstance(ref, list) and ref[0] == "g":
        n = ref[1].split("@")[0]
        return n[len("hg_proc_"):] if n.startswith("hg_proc_") else None
    return None


class Rpc:
    def __init__(self, P):
        self.P = P
        self.reg = {}       # rpc name -> dict(in,out,handler,site)
        self.regfn = {}     # registering function -> rpc name
        self.glob = {}      # global id variable -> rpc name
        self.dups = []
        for f in P.fns.values():
            for x in f.calls("HG_Register_name"):
                a = x.args
                nm = P.string(a[1])
                e = {"name": nm, "in": proc_type(P, a[2]), "out": proc_type(P, a[3]),
                     "handler": a[4][1] if isinstance(a[4], list) and a[4][0] == "g" else None, "site": x}
                if nm in self.reg and (self.reg[nm]["in"], self.reg[nm]["out"], self.reg[nm]["handler"]) != \
                        (e["in"], e["out"], e["handler"]):
                    self.dups.append((self.reg[nm], e))
                self.reg.setdefault(nm, e)
                # returned?
                for u in f.instrs():
                    if u.op == "ret" and u.args and flows(f, x.i, u.args[0]):
                        self.regfn.setdefault(f.name, nm)
                for u in f.instrs():
                    if u.op == "store" and isinstance(u.args[1], list) and u.args[1][0] == "g" and flows(f, x.i, u.args[0]):
                        self.glob.setdefault(u.args[1][1], set()).add(nm)
        for f in P.fns.values():
            for x in f.calls():
                if x.callee in self.regfn:
                    for u in f.instrs():
                        if u.op == "store" and isinstance(u.args[1], list) and u.args[1][0] == "g" \
                                and flows(f, x.i, u.args[0]):
                            self.glob.setdefault(u.args[1][1], set()).add(self.regfn[x.callee])

    def id_global(self, fn, ref):
        ref = ir.strip_casts(fn, ref)
        x = fn.val(ref)
        if x is not None and x.op == "load" and isinstance(x.args[0], list) and x.args[0][0] == "g":
            return x.args[0][1]
        return None

    def creates_reaching(self, fn, fwd):
        """HG_Create calls whose handle is the one forwarded"""
        h = fn.val(ir.strip_casts(fn, fwd.args[0]))
        if h is None or h.op != "load":
            return None
        b, o = ir.ptr_base(fn, h.args[0])
        cr = []
        for c in fn.calls("HG_Create"):
            cb, co = ir.ptr_base(fn, c.args[3])
            if cb == b and (co == o or co is None or o is None):
                cr.append(c)
        if not cr:
            return []
        # reaching definitions: walk back from the forward
        out = []
        bycell = {c.b: [] for c in cr}
        for c in cr:
            bycell[c.b].append(c)
        seen = set()
        here = [c for c in bycell.get(fwd.b, []) if c.pos < fwd.pos]
        if here:
            return [here[-1]]
        st = list(fn.preds()[fwd.b])
        while st:
            q = st.pop()
            if q in seen:
                continue
            seen.add(q)
            if bycell.get(q):
                out.append(bycell[q][-1]); continue
            st.extend(fn.preds()[q])
        return out

    def handlers(self):
        """handler name -> [rpc names]"""
        h = {}
        for nm, e in self.reg.items():
            if e["handler"]:
                h.setdefault(e["handler"], []).append(nm)
        return h

    def continuations(self):
        """handler -> set of bulk-transfer callbacks it (transitively) schedules"""
        P = self.P
        direct = {}
        for f in P.fns.values():
            s = set()
            for x in f.calls("HG_Bulk_transfer", "HG_Bulk_transfer_id", "HG_Bulk_bind_transfer"):
                if isinstance(x.args[1], list) and x.args[1][0] == "g":
                    s.add(x.args[1][1])
            direct[f.name] = s
        return direct


def flows(fn, src, ref, depth=0):
    ref = ir.strip_casts(fn, ref)
    if ref == src:
        return True
    x = fn.val(ref)
    if x is not None and x.op == "phi" and depth < 6:
        return any(flows(fn, src, r, depth + 1) for r, _ in x.d["in_"])
    return False


def layout(P, s):
    """comparable layout of a message struct"""
    st = P.structs.get(s)
    if not st:
        return None
    return tuple((n, o, z, t) for n, o, z, t in st["m"])
