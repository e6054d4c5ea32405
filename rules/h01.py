"""H01: every remote request is answered exactly once, and its input and handle are given back once.  Typestate over every
registered handler and the callbacks it hands its handle to (bulk transfers, forwards), on all paths, context-sensitively in
which values are the request's own handle."""
import ir, rpc
from esp import ESP
from report import Check
from frontend import AnalysisBroken

PID = "H01"
XFER = {"HG_Bulk_transfer": (1, 2), "HG_Bulk_transfer_id": (1, 2), "HG_Bulk_bind_transfer": (1, 2), "HG_Forward": (1, 2),
        "HG_Addr_lookup": (1, 2), "HG_Respond": (1, 2)}
OKAY = ("HG_Get_input", "HG_Free_input", "HG_Destroy", "HG_Respond", "HG_Bulk_create", "HG_Bulk_free", "HG_Bulk_transfer", "HG_Forward",
        "HG_Create", "HG_Get_output", "HG_Free_output", "HG_Bulk_access", "HG_Addr_lookup")
ALLOC = ("malloc", "calloc", "PDC_malloc", "PDC_calloc", "strdup")
HT = "struct hg_handle*"
# where a handle is kept for later, and who gives it out again (T02 decides the first)
BIND = ("PDC_try_finish_request",)
PARK = ("pdc_transfer_request_status", "region_list_t")


class Fn:
    """which values of a function are the request's own handle (H), a cell holding it (PH), a structure with it (A) or the
    information handed to a callback with such a structure (CB)"""

    def __init__(self, P, f, ctx):
        self.P = P; self.f = f; self.ctx = ctx
        self.cells = {}          # base ref -> class
        self.memo = {}
        for _ in range(6):
            n = dict(self.cells)
            self.memo = {}
            for x in f.instrs():
                if x.op == "call" and x.callee and x.callee.startswith(("memcpy", "memmove", "llvm.memcpy", "llvm.memmove")):      # a whole structure is copied
                    b, _ = ir.ptr_base(f, x.args[0])
                    c = self.cls(ir.ptr_base(f, x.args[1])[0])
                    if c in ("A", "AA") and isinstance(b, int):
                        self.cells[b] = c
                if x.op == "store":
                    c = self.cls(x.args[0])
                    if c is None:
                        continue
                    b, o = ir.ptr_base(f, x.args[1])
                    if not isinstance(b, int):
                        continue
                    y = f.ins[b]
                    if c == "H":
                        if y.op == "alloca" and not y.d["at"].startswith("S:") and "struct" not in y.d["at"]:
                            self.cells[b] = "PH"
                        elif y.op == "alloca" or y.op == "call" and y.callee in ("malloc", "calloc", "PDC_malloc", "PDC_calloc"):
                            self.cells[b] = "A"
                        elif y.op == "phi":
                            self.cells[b] = "A"
                    elif c in ("A", "AA"):
                        fo = rpc.field_of(f, x.args[1])
                        if y.op == "alloca" and (fo and fo[0] == "hg_cb_info" or "hg_cb_info" in y.d["at"]):
                            self.cells[b] = "CB" if c == "A" else "CBA"
                        elif c == "A" and y.op == "call" and y.callee in ("malloc", "calloc", "PDC_malloc", "PDC_calloc"):
                            self.cells[b] = "AA"
            if n == self.cells:
                break
        self.memo = {}

    def cls(self, r, depth=0):
        f = self.f
        r = ir.strip_casts(f, r)
        if isinstance(r, list):
            return self.ctx[r[1]] if r and r[0] == "a" and r[1] < len(self.ctx) else None
        if r in self.memo:
            return self.memo[r]
        self.memo[r] = None
        c = None
        if isinstance(r, int):
            if r in self.cells:
                c = self.cells[r]
            else:
                x = f.ins[r]
                if x.op in ("getelementptr",):
                    b, o = ir.ptr_base(f, r)
                    c = self.cls(b, depth + 1) if b != r else None
                    if c == "H":
                        c = None
                elif x.op == "load":
                    b, o = ir.ptr_base(f, x.args[0])
                    k = self.cls(b, depth + 1)
                    if k == "PH":
                        c = "H"
                    elif k == "A":
                        t = rpc.load_type(f, x)
                        if t is None and not o:
                            fo = rpc.field_of(f, x.args[0])
                            t = self.P.field_at(fo[0], 0)[1] if fo else None
                            if t is None and any(HT in str(v) for v in f.vartypes(x.i)):
                                t = HT
                        if t == HT:
                            c = "H"
                    elif k in ("CB", "CBA"):
                        fo = rpc.field_of(f, x.args[0])
                        if fo and fo[1] == "arg":
                            c = "A" if k == "CB" else "AA"
                    elif k == "AA":
                        t = rpc.load_type(f, x)
                        if t and t.startswith("struct") and t.endswith("*") and t != HT:
                            c = "A"
                elif x.op == "phi":
                    cs = {self.cls(v, depth + 1) for v, _ in x.d["in_"]} - {None}
                    c = cs.pop() if len(cs) == 1 else None
                elif x.op == "select":
                    cs = {self.cls(v, depth + 1) for v in x.args[1:]} - {None}
                    c = cs.pop() if len(cs) == 1 else None
        self.memo[r] = c
        return c

    def funcs(self, r, depth=0):
        """the functions a value can be"""
        r = ir.strip_casts(self.f, r)
        if isinstance(r, list):
            return {r[1]} if r and r[0] == "g" and r[1] in self.P.fns else set()
        x = self.f.val(r)
        if x is not None and depth < 6 and x.op == "phi":
            return set().union(*[self.funcs(v, depth + 1) for v, _ in x.d["in_"]])
        if x is not None and depth < 6 and x.op == "select":
            return set().union(*[self.funcs(v, depth + 1) for v in x.args[1:]])
        return set()


KINDS = {"answered": "the request is not answered on some path",
         "answered once": "the request is answered twice, or also kept for a later answer, on some path",
         "handle kept": "the request's handle is never given back on some path",
         "handle given back once": "the request's handle is given back twice, or although it is kept for a later answer, on some path",
         "input given back": "the request's input is never given back on some path",
         "input given back once": "the request's input is given back twice on some path"}


class Handlers:
    def __init__(self, P, chk):
        self.P = P; self.chk = chk
        self.memo = {}
        self.stack = []
        self.called = set()
        self.states = 0
        self.late = {}           # uses of the request's strings after its input was given back
        self.after = {}          # uses of the handle after it was given back

    def other_side(self, n):
        """an operation of the other kind of program, whose function here does nothing with its argument"""
        f = self.P.fns[n]
        return not any(isinstance(a, list) and a and a[0] == "a" for x in f.instrs() for a in ir.operands(x))

    def summary(self, name, ctx):
        """set of ((counts of this path), return value or None)"""
        key = (name, ctx)
        if key in self.memo:
            return self.memo[key]
        if key in self.stack:
            return {((), None)}
        if len(self.stack) > 12:
            raise AnalysisBroken("call depth in %s" % name)
        self.stack.append(key)
        f = self.P.fns[name]
        self.called.add(name)
        V = Fn(self.P, f, ctx)
        out = set()
        ins = {ir.ptr_base(f, x.args[1])[0] for x in f.calls("HG_Get_input") if V.cls(x.args[0]) == "H"}

        def add(us, k, n=1):
            d = dict(us)
            d[k] = min(2, d.get(k, 0) + n)
            return tuple(sorted(d.items()))

        def join(us, o):
            d = dict(us)
            for k, v in o:
                d[k] = min(2, d.get(k, 0) + v)
            return tuple(sorted(d.items()))

        def into(us, names, c2, keep=None, late=False):
            r = set()
            names = [n for n in sorted(names) if len(names) == 1 or not self.other_side(n)]
            for n in names:
                for o, rv in self.summary(n, c2):
                    if late:                             # runs later, from HG_Trigger
                        o = tuple((k if k.startswith("l") else "l" + k, v) for k, v in o)
                    r.add((join(us, o), keep if keep is not None else rv))
            return sorted(r, key=repr)

        def transfer(x, us, ev):
            d = dict(us)
            if x.op == "store":
                if V.cls(x.args[0]) == "H":
                    fo = rpc.field_of(f, x.args[1])
                    b, o = ir.ptr_base(f, x.args[1])
                    if fo and fo[0] in PARK or isinstance(b, list) and b and b[0] == "g":
                        return [(add(us, "P"), None)]
                return None
            if x.op == "load" and d.get("F") and ins:
                b, o = ir.ptr_base(f, x.args[0])
                t = rpc.load_type(f, x)
                if isinstance(b, int) and b in ins and t and t.endswith("*"):
                    self.late.setdefault(name, x)
            if x.op != "call":
                return None
            c = x.callee
            own = [V.cls(a) for a in x.args]
            if c == "HG_Get_info" and own[0] == "H" and d.get("D"):
                self.after.setdefault(name, x)
            if c in ("HG_Respond", "HG_Destroy", "HG_Free_input", "HG_Get_input"):
                if own[0] != "H":
                    return [(us, ("i", 0))]
                if d.get("D") and c != "HG_Destroy":
                    self.after.setdefault(name, x)
                k = {"HG_Respond": "R", "HG_Destroy": "D", "HG_Free_input": "F", "HG_Get_input": "I"}[c]
                r = [(add(us, k), ("i", 0))]
                if c == "HG_Respond":
                    fs = V.funcs(x.args[1])
                    if fs and own[2]:
                        r = into(r[0][0], fs, ("CB",), ("i", 0))
                return r
            if c in XFER:
                k, a = XFER[c]
                fs = V.funcs(x.args[k])
                if own[a] in ("A", "AA") and fs:
                    return into(us, fs, ("CB" if own[a] == "A" else "CBA",), ("i", 0), True)
                return [(us, ("i", 0))]
            if c in ALLOC:
                return [(us, ("ne", frozenset([0])))]
            if c in OKAY:
                return [(us, ("i", 0))]
            if any(own):
                if c in self.P.fns:
                    r = into(us, {c}, tuple(own[:len(self.P.fns[c].args)]))
                    if c in BIND:               # T02 decides that the request waited for is found
                        r = [v for v in r if dict(v[0]).get("P")] or r
                    return r
                if c is None:
                    fs = V.funcs(x.d.get("fp")) if x.d.get("fp") is not None else set()
                    if fs:
                        return into(us, fs, tuple(own))
            return None

        def at_ret(x, us, ev):
            v = ev(x.args[0]) if x.args else None
            out.add((us, v if v is not None and v[0] == "i" else None))
        e = ESP(f, [()], transfer, at_ret, limit=80000)
        e.run()
        self.states += e.states
        self.stack.pop()
        self.memo[key] = out
        return out


def to_clients(P, R):
    """the handlers of the requests a server sends to a client"""
    names = set()
    for f in P.fns.values():
        for x in f.calls("HG_Create"):
            r = ir.strip_casts(f, x.args[1])
            y = f.val(r)
            for _ in range(4):
                if y is None or y.op != "load":
                    break
                b, o = ir.ptr_base(f, y.args[0])
                if b == ["g", "pdc_client_info_g"]:
                    names |= R.glob.get(R.id_global(f, x.args[2]), set())
                    break
                y = f.val(b)
    return {R.reg[n]["handler"] for n in names}


def run():
    chk = Check(PID, "on every path from a handler's entry through the callbacks it hands the handle to: one answer, one release of the handle "
                "after it, one release of the input; or the handle is kept where T02's waits or the lock requests are answered from")
    chk.assumptions += ["Mercury's operations succeed", "handles kept for a wait are answered once (T02)"]
    fns = set()
    for config in ("server", "client"):
        P = ir.program(config)
        R = rpc.Rpc(P)
        serve = set(R.handlers()) if config == "server" else sent
        sent = to_clients(P, R) if config == "server" else None
        H = Handlers(P, chk)
        for h, names in sorted(R.handlers().items()):
            if h not in P.fns:
                continue
            f = P.fns[h]
            if h not in serve:
                continue
            bad = {k: 0 for k in KINDS}
            for us, rv in sorted(H.summary(h, ("H",)), key=repr):
                d = dict(us)
                r, de, fi, gi, p = (d.get(k, 0) + d.get("l" + k, 0) for k in "RDFIP")
                bad["answered"] |= r == 0 and not p
                bad["answered once"] |= r > 1 or bool(r and p)
                bad["handle kept"] |= not p and not de
                bad["handle given back once"] |= de > 1 or bool(p and de)
                bad["input given back"] |= gi > 0 and not p and not fi
                bad["input given back once"] |= fi > 1
                chk.count("outcomes (%s)" % config)
            chk.count("handlers (%s)" % config)
            for k, b in bad.items():
                chk.oblige(not b, "%s:%s:%s" % (config, h, k), "%s (%s): %s" % (f.where(), h, KINDS[k]), h)
        for n in sorted(H.called):
            for u, what in ((H.after, "the request's handle is used after it was given back"),
                            (H.late, "the request's data is used after its input was given back")):
                chk.oblige(n not in u, "%s:%s:use" % (config, n), "%s (%s): %s" % (u[n].loc() if n in u else "", n, what), n)
        fns |= H.called
        chk.count("states", H.states)
    chk.floor("handlers (server)", 60)
    chk.floor("handlers (client)", 4)
    chk.floor("outcomes (server)", 75)
    chk.analysed = {"functions": sorted(fns)}
    return chk.finish("")
