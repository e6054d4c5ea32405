"""Path-sensitive-by-state forward dataflow (property simulation): a finite user state is propagated
over the CFG together with a small environment of known SSA values (constants, zero / non-zero,
branch refinements), so that correlated branches do not create infeasible paths.  States that agree
are merged; nothing is executed and no solver is involved."""
from frontend import AnalysisBroken
from ir import operands

MASK = {8: 0xff, 16: 0xffff, 32: 0xffffffff, 64: 0xffffffffffffffff}
# abstract values: ('i', n) exactly n; ('ne', frozenset) anything but these; None unknown


def _norm(n, w):
    if w == 1:
        return n & 1
    if w in MASK:
        n &= MASK[w]
        if n >> (w - 1):
            n -= 1 << w
    return n


class ESP:
    def __init__(self, fn, init, transfer, at_ret, call_value=None, limit=200000, edge=None, start=None,
                 load_value=None, only=None, env=None, also=()):
        # also: values refined by every test of them, and the memory cells they were just read from
        """transfer(instr, ustate, ev) -> None (unchanged) | list of (ustate, result abstract value or None)
           at_ret(instr, ustate, ev) called for every (state, return)
           ev(ref) evaluates a reference in the current environment"""
        self.fn = fn; self.init = init; self.transfer = transfer; self.at_ret = at_ret
        self.limit = limit; self.edge = edge; self.start = start; self.load_value = load_value
        self.env = env or {}
        self.only = only          # track nothing but these values (coarser: more paths, never fewer)
        self.live_in = self._liveness()
        self.states = 0
        # SSA values worth refining: tested in >= 2 places or feeding phis/returns
        self.refinable = self._refinable() | set(also)
        self.cells = bool(also)

    def _liveness(self):
        fn = self.fn
        n = len(fn.blocks)
        use = [set() for _ in range(n)]; de = [set() for _ in range(n)]; phi_out = [set() for _ in range(n)]
        for b, bl in enumerate(fn.blocks):
            for x in bl:
                if x.op == "phi":
                    for r, p in x.d["in_"]:
                        k = self._key(r)
                        if k is not None:
                            phi_out[p].add(k)
                else:
                    for r in operands(x):
                        k = self._key(r)
                        if k is not None and k not in de[b]:
                            use[b].add(k)
                de[b].add(x.i)
        # alloca pseudo variables ("m", id) are always live
        live_in = [set() for _ in range(n)]
        ch = True
        order = fn.rpo()[::-1]
        while ch:
            ch = False
            for b in order:
                out = set(phi_out[b])
                for s in fn.succs(b):
                    out |= live_in[s]
                new = use[b] | (out - de[b])
                if new != live_in[b]:
                    live_in[b] = new; ch = True
        return live_in

    def _key(self, r):
        if isinstance(r, int):
            return r
        if isinstance(r, list) and r and r[0] == "a":
            return ("a", r[1])
        return None

    def _refinable(self):
        fn = self.fn
        tests = {}
        for x in fn.instrs():
            if x.op in ("icmp", "switch"):
                r = x.args[0] if x.op == "icmp" else x.d["c"]
                k = self._key(r)
                if k is not None:
                    tests[k] = tests.get(k, 0) + 1
            elif x.op == "phi":
                for r, _ in x.d["in_"]:
                    k = self._key(r)
                    if k is not None:
                        tests[k] = tests.get(k, 0) + 1
            elif x.op == "ret":
                for r in x.args:
                    k = self._key(r)
                    if k is not None:
                        tests[k] = tests.get(k, 0) + 1
        return {k for k, v in tests.items() if v >= 2}

    # ---- evaluation
    def ev(self, ref, env):
        if isinstance(ref, list):
            t = ref[0]
            if t == "c":
                return ("i", ref[1])
            if t in ("n", "z"):
                return ("i", 0)
            if t in ("g", "ge"):
                return ("ne", frozenset([0]))
            if t == "a":
                return env.get(("a", ref[1]))
            return None
        if isinstance(ref, int):
            return env.get(ref)
        return None

    def _fits(self, ref, w, seen=()):
        """the value is the sign extension of its low w bits"""
        if isinstance(ref, list):
            return ref[0] == "c" and -(1 << (w - 1)) <= ref[1] < (1 << (w - 1))
        if ref in seen:
            return True
        y = self.fn.ins.get(ref)
        if y is None:
            return False
        if y.op in ("sext", "zext"):
            ft = y.d.get("ft", "")
            return ft[1:].isdigit() and (int(ft[1:]) <= w if y.op == "sext" else int(ft[1:]) < w)
        if y.op == "phi":
            return all(self._fits(r, w, seen + (ref,)) for r, _ in y.d["in_"])
        return False

    def _eval_instr(self, x, env):
        op = x.op
        ev = lambda r: self.ev(r, env)
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze"):
            v = ev(x.args[0])
            if v is None:
                return None
            w = int(x.d["ty"][1:]) if x.d.get("ty", "").startswith("i") and x.d["ty"][1:].isdigit() else 64
            if v[0] == "i":
                n = v[1]
                if op == "zext" and x.d["ft"][1:].isdigit():
                    n &= (1 << int(x.d["ft"][1:])) - 1
                return ("i", _norm(n, w))
            return v if op != "trunc" or self._fits(x.args[0], w) else None
        if op == "icmp":
            a, b = ev(x.args[0]), ev(x.args[1])
            pr = x.d["pr"]
            if a and b and a[0] == "i" and b[0] == "i":
                p, q = a[1], b[1]
                if pr[0] == "u":
                    p &= MASK[64]; q &= MASK[64]
                r = {"eq": p == q, "ne": p != q, "gt": p > q, "ge": p >= q, "lt": p < q, "le": p <= q}[
                    pr if pr in ("eq", "ne") else pr[1:]]
                return ("i", int(r))
            if pr in ("eq", "ne"):
                for u, v in ((a, b), (b, a)):
                    if u and v and u[0] == "ne" and v[0] == "i" and v[1] in u[1]:
                        return ("i", int(pr == "ne"))
            return None
        if op in ("and", "or", "xor"):
            a, b = ev(x.args[0]), ev(x.args[1])
            i1 = x.d.get("ty") == "i1"
            if a and b and a[0] == "i" and b[0] == "i":
                n = {"and": a[1] & b[1], "or": a[1] | b[1], "xor": a[1] ^ b[1]}[op]
                return ("i", n & 1 if i1 else n)
            if op == "and" and (("i", 0) in (a, b)):
                return ("i", 0)
            if op == "or":
                if i1 and ("i", 1) in (a, b):
                    return ("i", 1)
                for u, v in ((a, b), (b, a)):
                    if u and u[0] == "ne" and 0 in u[1]:
                        return ("ne", frozenset([0]))
                    if u and u[0] == "i" and u[1] != 0:
                        return ("ne", frozenset([0]))
            return None
        if op in ("add", "sub", "mul"):
            a, b = ev(x.args[0]), ev(x.args[1])
            if a and b and a[0] == "i" and b[0] == "i":
                n = {"add": a[1] + b[1], "sub": a[1] - b[1], "mul": a[1] * b[1]}[op]
                w = int(x.d["ty"][1:]) if x.d["ty"][1:].isdigit() else 64
                n = _norm(n, w)
                # loop counters must not unroll: only keep tiny values
                return ("i", n) if -4 <= n <= 4 else None
            return None
        if op == "select":
            c = ev(x.args[0])
            if c and c[0] == "i":
                return ev(x.args[1] if c[1] else x.args[2])
            a, b = ev(x.args[1]), ev(x.args[2])
            return a if a == b else None
        if op == "alloca":
            return ("ne", frozenset([0]))
        if op == "getelementptr":
            v = ev(x.d["b"])
            if v and v[0] == "ne":
                return ("ne", frozenset([0]))
            return None
        return None

    def _refine(self, cref, truth, env):
        """env refined by condition value; returns None if infeasible"""
        cur = self.ev(cref, env)
        if cur and cur[0] == "i":
            if bool(cur[1]) != truth:
                return None
        if not isinstance(cref, int):
            return env
        x = self.fn.ins[cref]
        env = dict(env)
        if cref in self.refinable or self.multi(cref):
            env[cref] = ("i", int(truth))
        if x.op == "icmp":
            pr = x.d["pr"]
            a, b = x.args
            va, vb = self.ev(a, env), self.ev(b, env)
            if vb and vb[0] == "i" and not (va and va[0] == "i"):
                tgt, cv = a, vb[1]
            elif va and va[0] == "i" and not (vb and vb[0] == "i"):
                tgt, cv = b, va[1]
            else:
                return env
            eq = (pr == "eq") == truth if pr in ("eq", "ne") else None
            while True:
                k = self._key(tgt)
                if k is None:
                    break
                if eq is True:
                    if env.get(k) and env[k][0] == "ne" and cv in env[k][1]:
                        return None
                    if k in self.refinable or k in env:
                        env[k] = ("i", cv)
                elif eq is False:
                    old = env.get(k)
                    if k in self.refinable or old:
                        s = (old[1] if old and old[0] == "ne" else frozenset()) | {cv}
                        if len(s) <= 8:
                            env[k] = ("ne", s)
                if self.cells and k in env and isinstance(k, int) and self._fresh(k, x):
                    env[self._slot(self.fn.ins[k].args[0])] = env[k]
                # look through casts
                y = self.fn.ins.get(k) if isinstance(k, int) else None
                if y is not None and y.op in ("zext", "sext", "freeze"):
                    if y.op == "zext" and y.d.get("ft") == "i1" and eq is not None:
                        t = (cv != 0) if eq else (cv == 0)
                        return self._refine(y.args[0], t, env)
                    tgt = y.args[0]; continue
                break
        elif x.op in ("and", "or") and x.d.get("ty") == "i1":
            if (x.op == "and") == truth:
                for r in x.args:
                    env = self._refine(r, truth, env)
                    if env is None:
                        return None
        elif x.op == "xor" and x.d.get("ty") == "i1" and x.args[1] == ["c", 1, 1]:
            return self._refine(x.args[0], not truth, env)
        return env

    def _fresh(self, k, x):
        """value k was read from a cell that cannot have changed before test x"""
        y = self.fn.ins[k]
        return y.op == "load" and y.b == x.b and self._slot(y.args[0]) is not None and not any(
            z.op in ("store", "call") for z in self.fn.blocks[y.b][y.pos + 1:])

    def multi(self, ref):
        return sum(1 for u in self.fn.uses_of(ref)) >= 2

    def run(self):
        fn = self.fn
        seen = set()
        work = [(self.start or 0, None, {k: v for k, v in self.env.items()}, u) for u in self.init]
        while work:
            b, prev, env, us = work.pop()
            env = {k: v for k, v in env.items() if (isinstance(k, tuple) and k[0] == "m") or k in self.live_in[b]
                   or self._phi_needs(b, prev, k)}
            # phis
            phis = {}
            i = 0
            bl = fn.blocks[b]
            while i < len(bl) and bl[i].op == "phi":
                if prev is not None:
                    for r, p in bl[i].d["in_"]:
                        if p == prev:
                            phis[bl[i].i] = self.ev(r, env)
                            break
                i += 1
            for k, v in phis.items():
                if v is None:
                    env.pop(k, None)
                else:
                    env[k] = v
            env = {k: v for k, v in env.items() if isinstance(k, tuple) and k[0] == "m" or k in self.live_in[b]
                   or k in phis}
            if self.only is not None:
                env = {k: v for k, v in env.items() if k in self.only}
            key = (b, tuple(sorted(((str(k), str(v if v[0] == 'i' else ('ne', sorted(v[1])))) for k, v in env.items()))), us)
            if key in seen:
                continue
            seen.add(key)
            self.states += 1
            if self.states > self.limit:
                raise AnalysisBroken("state limit in %s" % fn.name)
            self._block(b, i, env, us, work)
        return self

    def _phi_needs(self, b, prev, k):
        for x in self.fn.blocks[b]:
            if x.op != "phi":
                break
            for r, p in x.d["in_"]:
                if p == prev and self._key(r) == k:
                    return True
        return False

    def _block(self, b, i, env, us, work):
        fn = self.fn
        bl = fn.blocks[b]
        cur = [(dict(env), us)]
        for x in bl[i:]:
            nxt = []
            for e, u in cur:
                if x.op == "ret":
                    self.at_ret(x, u, lambda r, e=e: self.ev(r, e))
                    continue
                if x.op == "unreachable":
                    continue
                if x.op == "br":
                    s = x.d["s"]
                    if "c" not in x.d:
                        self._go(b, s[0], e, u, work)
                    else:
                        for k, truth in ((0, True), (1, False)):
                            ne = self._refine(x.d["c"], truth, e)
                            if ne is not None:
                                self._go(b, s[k], ne, u, work, x, truth)
                    continue
                if x.op == "switch":
                    v = self.ev(x.d["c"], e)
                    s, cs = x.d["s"], x.d["cs"]
                    k = self._key(x.d["c"])
                    hit = False
                    for c, t in zip(cs, s[1:]):
                        if v and v[0] == "i" and v[1] != c:
                            continue
                        if v and v[0] == "ne" and c in v[1]:
                            continue
                        ne = dict(e)
                        if k in self.refinable:
                            ne[k] = ("i", c)
                        if v and v[0] == "i":
                            hit = True
                        self._go(b, t, ne, u, work)
                    if not hit:
                        self._go(b, s[0], e, u, work)
                    continue
                r = self.transfer(x, u, lambda q, e=e: self.ev(q, e))
                if r is None:
                    v = self._eval_instr(x, e)
                    if x.op == "load" and v is None:
                        v = self._load(x, e)
                    if x.op == "store":
                        self._store(x, e)
                    if v is not None:
                        e[x.i] = v
                    elif x.i in e:
                        del e[x.i]
                    if x.op == "call":
                        self._clobber(x, e)
                    nxt.append((e, u))
                else:
                    for nu, rv in r:
                        ne = dict(e)
                        if rv is not None:
                            ne[x.i] = rv
                        else:
                            ne.pop(x.i, None)
                        if x.op == "call":
                            self._clobber(x, ne)
                        if x.op == "store":
                            self._store(x, ne)
                        nxt.append((ne, nu))
            cur = nxt
            if not cur:
                return

    def _go(self, b, t, env, us, work, br=None, truth=None):
        if self.edge:
            us = self.edge(b, t, us, br, truth, lambda r: self.ev(r, env))
            if us is None:
                return
        work.append((t, b, env, us))

    # scalar allocas that stay in memory (address taken): keep their last stored value until a call may change it
    def _slot(self, ref):
        if isinstance(ref, int):
            y = self.fn.ins[ref]
            if y.op == "alloca" and (y.d["at"] in ("i32", "i64", "i8", "p", "i16", "i1")):
                return ("m", ref)
        return None

    def _load(self, x, e):
        if self.load_value:
            v = self.load_value(x, lambda r: self.ev(r, e))
            if v is not None:
                return v
        k = self._slot(x.args[0])
        return e.get(k) if k else None

    def _store(self, x, e):
        k = self._slot(x.args[1])
        if k:
            v = self.ev(x.args[0], e)
            if v is None:
                e.pop(k, None)
            else:
                e[k] = v

    def _clobber(self, x, e):
        esc = self._escaped()
        for k in [k for k in e if isinstance(k, tuple) and k[0] == "m" and k[1] in esc]:
            del e[k]

    def _escaped(self):
        if not hasattr(self, "_esc"):
            s = set()
            for y in self.fn.instrs():
                if y.op == "call":
                    for r in y.args:
                        if isinstance(r, int):
                            s.add(r)
                elif y.op == "store" and isinstance(y.args[0], int):
                    s.add(y.args[0])
                elif y.op in ("getelementptr",) and isinstance(y.d["b"], int):
                    s.add(y.d["b"])
            self._esc = s
        return self._esc
