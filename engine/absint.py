"""Abstract interpreter with trace partitioning.  Values are polynomials over named inputs; integers are
ideal; comparisons the current partition does not decide split the partition.  Loops are followed as long as
their exit test is decided by constants; anything else is refused (AnalysisBroken), never guessed."""
import itertools
from frontend import AnalysisBroken
from sym import Poly

NOEFFECT = {"printf", "fprintf", "fflush", "puts", "putchar", "perror", "FUNC_ENTER", "fputs", "fwrite", "gettimeofday",
            "srand", "llvm.dbg.declare", "llvm.dbg.value", "llvm.lifetime.start.p0",
            "llvm.lifetime.end.p0", "llvm.stacksave.p0", "llvm.stackrestore.p0", "push", "pop", "time", "HG_Error_to_string"}


class Undecided(Exception):
    pass


class Endless(AnalysisBroken):
    """a trace exceeded the step limit"""

    def __init__(self, path, fn, x):
        AnalysisBroken.__init__(self, "step limit in %s" % fn.name)
        self.path = path; self.fn = fn; self.x = x


class Path:
    """one abstract trace"""

    def __init__(self):
        self.mem = {}
        self.facts = {}        # (pred, poly key) -> bool
        self.events = []
        self.nreg = 0
        self.extra = None      # oracle-owned state (immutable)
        self.loops = ()        # enclosing summarised loops: (iteration atom, trip Poly)
        self.dirty = frozenset()   # regions written at a symbolic offset
        self.freed = frozenset()   # regions given back
        self.size = {}             # region -> bytes, where known
        self.zero = frozenset()    # regions that start zeroed

    def copy(self):
        p = Path()
        p.mem = dict(self.mem); p.facts = dict(self.facts); p.events = list(self.events)
        p.nreg = self.nreg; p.extra = self.extra
        p.loops = self.loops; p.dirty = self.dirty; p.freed = self.freed
        p.size = dict(self.size); p.zero = self.zero
        return p

    def ev(self, *e):
        self.events.append(Ev(e, self.loops, self.facts))


class Ev(tuple):
    """an event; .loops are the summarised loops around it, .facts the decisions on its trace so far"""

    def __new__(cls, t, loops, facts):
        o = tuple.__new__(cls, t)
        o.loops = loops; o.facts = dict(facts)
        return o

    def with_(self, t):
        o = tuple.__new__(Ev, t)
        o.loops = self.loops; o.facts = self.facts
        return o


def reg(name):
    return Poly.a(("reg", name))


class Interp:
    def __init__(self, P, oracle=None, cell=None, ext=None, max_paths=60000, max_steps=4000000, follow=None, depth=12,
                 no_summary=False):
        """oracle(path, pred, a, b) -> None | True | False | list of (extra, bool)
           cell(base atom, offset) -> Poly for an unwritten cell of an input region (or None)
           ext(callee, args, path, instr) -> None (unknown) | Poly | ('fork', [Poly...])"""
        self.P = P; self.oracle = oracle; self.cell = cell; self.ext = ext
        self.max_paths = max_paths; self.max_steps = max_steps; self.follow = follow; self.depth = depth
        self.here = None; self.fpv = None; self.steps = 0; self.npaths = 0; self.no_summary = no_summary

    # ---- entry
    def run(self, fn, args, path=None):
        """returns list of (return value Poly or None, Path)"""
        path = path or Path()
        return self._call(fn, args, path, 0)

    endless = 0
    narrow = False      # make the loss of high bits visible
    typed = None        # what a conversion between machine types does to a value that is not constant

    def run_ended(self, fn, args, path, limit=100000):
        """like run, for operations whose inputs are bounded: a trace far longer than any input allows is one that does not
        end, and carries the event 'endless'"""
        self.steps = 0
        self.max_steps = limit
        try:
            if self.endless >= 3:
                raise AnalysisBroken("several traces do not end")
            return self.run(fn, args, path)
        except Endless as e:
            self.endless += 1
            e.path.ev("endless", e.fn.name, e.x)
            return [(Poly.a(("undef",)), e.path)]

    def _call(self, fn, args, path, depth):
        if depth > self.depth:
            raise AnalysisBroken("call depth in %s" % fn.name)
        out = []
        self._run(fn, [(0, None, {}, path, 0)], args, depth, out, None, None, None, None)
        return out

    def _run(self, fn, work, args, depth, out, inside, h, backs, exits):
        """run work items; inside a summarised loop, edges to its header / out of it are collected"""
        loops = fn.loops()
        first = True
        while work:
            b, prev, env, path, start = work.pop()
            if start == 0 and inside is not None and not first:
                if b == h:
                    backs.append((prev, env, path)); continue
                if b not in inside:
                    exits.append((b, prev, env, path)); continue
            env = dict(env)
            if start == 0 and b in loops and b != h and prev is not None and prev not in loops[b]:
                if self._symbolic(fn, b, prev, env, path, args):
                    self._summarise(fn, b, prev, env, path, args, depth, work, out)
                    first = False
                    continue
            first = False
            self._block(fn, b, prev, env, path, args, depth, start, work, out)
            self.npaths = max(self.npaths, len(out) + len(work))
            if len(out) + len(work) > self.max_paths:
                raise AnalysisBroken("too many partitions in %s" % fn.name)

    # ---- loops whose trip count is symbolic
    def _exit_tests(self, fn, h):
        L = fn.loops()[h]
        r = []
        for b in L:
            t = fn.blocks[b][-1]
            if t.op == "br" and "c" in t.d and any(s not in L for s in t.d["s"]) and any(s in L for s in t.d["s"]):
                r.append(b)
        return r

    def _symbolic(self, fn, h, prev, env, path, args):
        """is the loop's exit test undecided by constants on entry?"""
        if self.no_summary:
            return False
        tests = self._exit_tests(fn, h)
        if not tests:
            return False
        t = h if h in tests else None
        if t is None:
            # bottom-tested: constant if the test compares a phi-derived value with a constant
            t = tests[0]
        e = dict(env)
        try:
            for x in fn.blocks[h]:
                if x.op != "phi":
                    break
                for r, p in x.d["in_"]:
                    if p == prev:
                        e[x.i] = self.val(fn, r, env, args)
            c = fn.val(fn.blocks[t][-1].d["c"])
            if c is None or c.op not in ("icmp",):
                return True
            a = self._peek(fn, c.args[0], e, path, args); b = self._peek(fn, c.args[1], e, path, args)
            if a is None or b is None:
                return True
            d = a - b
            if d.const() is not None:
                return False
            ra, oa = self.split(a); rb, ob = self.split(b)
            if c.d["pr"] in ("eq", "ne") and ((ra is not None and b.const() == 0) or (rb is not None and a.const() == 0)):
                return False
            return not (ra is not None and ra == rb and (oa - ob).const() is not None)
        except AnalysisBroken:
            return True

    def _peek(self, fn, ref, e, path, args, depth=0):
        """value of a side-effect free expression at loop entry"""
        if not isinstance(ref, int) or ref in e:
            return self.val(fn, ref, e, args)
        if depth > 12:
            return None
        x = fn.ins[ref]
        pk = lambda r: self._peek(fn, r, e, path, args, depth + 1)
        if x.op in ("zext", "sext", "trunc", "bitcast", "freeze"):
            return pk(x.args[0])
        if x.op in ("add", "sub", "mul"):
            a, b = pk(x.args[0]), pk(x.args[1])
            return None if a is None or b is None else a + b if x.op == "add" else a - b if x.op == "sub" else a * b
        if x.op == "load":
            a = pk(x.args[0])
            return None if a is None else self.load(a, path, x.d.get("ty"))
        if x.op == "getelementptr" and x.d.get("o") is not None:
            p = pk(x.d["b"])
            if p is None:
                return None
            p = p + Poly.c(x.d["o"])
            for r, sc in x.d["v"]:
                q = pk(r)
                if q is None:
                    return None
                p = p + q * Poly.c(sc)
            return p
        return None

    def _summarise(self, fn, h, prev, env, path, args, depth, work, out):
        L = fn.loops()[h]
        phis = [x for x in fn.blocks[h] if x.op == "phi"]
        init = {}
        for x in phis:
            for r, p in x.d["in_"]:
                if p == prev:
                    init[x.i] = self.val(fn, r, env, args)
        tag = (fn.name, h, len(path.loops), depth)
        tests = self._exit_tests(fn, h)
        main = h if h in tests else next((t for t in tests if h in fn.succs(t)), tests[0] if len(tests) == 1 else None)
        bottom = main is not None and h in fn.succs(main) and not (main == h and len(L) > 1 and h not in fn.succs(h))
        W = {}
        for _ in range(4):
            fresh = {x.i: Poly.a(("phi", tag, x.i)) for x in phis}
            p0 = path.copy()
            p0.loops = path.loops + ((("it",) + tag, None),)
            for k in W:
                p0.mem[k] = Poly.a(("mphi", tag, k))
            e0 = dict(env); e0.update(fresh); e0["tests"] = ()
            backs, exits, o2 = [], [], []
            n0 = len(p0.events)
            self._body(fn, h, e0, p0, args, depth, o2, L, backs, exits)
            wr = set()
            for _, _, p in backs:
                for ev in p.events[n0:]:
                    if ev[0] == "store":
                        wr.add((ev[1], ev[2]))
                for k, v in p.mem.items():
                    if k in p0.mem and p0.mem[k] != v:
                        wr.add(k)
            wr = {k for k in wr if k in path.mem or self.cell is None or True}
            if wr <= set(W):
                break
            for k in wr:
                W[k] = 1
        steps = {}
        fresh_atoms = {("phi", tag, x.i) for x in phis} | {("mphi", tag, k) for k in W}

        def invariant(p):
            return not any(mentions(a, fresh_atoms) for a in p.atoms())
        it = Poly.a(("it",) + tag)
        sub = {}
        for x in phis:
            ys = []
            for b, e, p in backs:
                for r, q in x.d["in_"]:
                    if q == b:
                        ys.append(self.val(fn, r, e, args))
            st = {(y - fresh[x.i]).key() for y in ys}
            if len(st) == 1 and invariant(ys[0] - fresh[x.i]):
                sub[("phi", tag, x.i)] = init[x.i] + it * (ys[0] - fresh[x.i])
            else:
                sub[("phi", tag, x.i)] = Poly.a(("hav", tag, x.i, ("it",) + tag))
        for k in W:
            ys = [p.mem.get(k) for _, _, p in backs]
            iv = path.mem.get(k)
            if iv is None and self.cell:
                iv = self.cell(*k)
            fk = Poly.a(("mphi", tag, k))
            if iv is not None and ys and all(y is not None and y == ys[0] for y in ys) and invariant(ys[0] - fk):
                sub[("mphi", tag, k)] = iv + it * (ys[0] - fk)
            else:
                sub[("mphi", tag, k)] = Poly.a(("hav", tag, k, ("it",) + tag))
        S = lambda p: p.subst(lambda a: sub.get(a))
        # trip count from the main exit test
        trip = Poly.a(("trip",) + tag)
        cnt = None
        if main is not None:
            ts = set()
            for b, e, p in backs:
                t = [q for q in e.get("tests", ()) if q[0] == main]
                if t:
                    ts.add((t[-1][1], t[-1][2].key(), t[-1][3]))
            if len(ts) == 1:
                core, dk, cont = next(iter(ts))
                d = S(Poly(dict(dk)))
                if not cont:
                    core = {"eq": "ne", "ne": "eq", "gt": "le", "le": "gt", "ge": "lt", "lt": "ge"}[core]
                cnt = trip_count(d, ("it",) + tag, core, self)
        if cnt is not None:
            trip = cnt + Poly.c(1) if bottom else cnt
        # pass B
        p1 = path.copy()
        p1.loops = path.loops + ((("it",) + tag, trip),)
        for k in W:
            p1.mem[k] = sub[("mphi", tag, k)]
        e1 = dict(env); e1["tests"] = ()
        for x in phis:
            e1[x.i] = sub[("phi", tag, x.i)]
        backs, exits = [], []
        n0 = len(path.events)
        self._body(fn, h, e1, p1, args, depth, out, L, backs, exits)
        for b, e, p in backs:
            if p.freed != path.freed:
                for _, _, _, q in exits:
                    q.freed = q.freed | p.freed
        body_ev = []
        seen = set()
        for b, e, p in backs:
            for ev in p.events[n0:]:
                k = repr(ev) + repr(ev.loops)
                if k not in seen:
                    seen.add(k); body_ev.append(ev)
        dirty = path.dirty
        for b, e, p in backs:
            dirty |= p.dirty
        last = trip - Poly.c(1) if bottom else trip
        fin = lambda a: last if a == ("it",) + tag else None
        FS = lambda p: deep_subst(p, ("it",) + tag, last)
        for b, q, e, p in exits:
            np = p.copy()
            own = p.events[n0:]
            np.loops = path.loops
            np.dirty = dirty | p.dirty
            if q == main:
                np.events = path.events + body_ev + [ev for ev in own if (repr(ev) + repr(ev.loops)) not in seen]
                np.facts = {k: v for k, v in path.facts.items()}
                np.mem = {k: FS(v) for k, v in p.mem.items()}
                ne = {k: (FS(v) if isinstance(v, Poly) else v) for k, v in e.items()}
            else:
                np.events = path.events + body_ev + [ev for ev in own if (repr(ev) + repr(ev.loops)) not in seen]
                ne = e
            ne["tests"] = env.get("tests", ())
            work.append((b, q, ne, np, 0))

    def _body(self, fn, h, env, path, args, depth, out, L, backs, exits):
        bl = fn.blocks[h]
        i = 0
        while i < len(bl) and bl[i].op == "phi":
            i += 1
        work = []
        self._block(fn, h, None, dict(env), path, args, depth, i if i else -1, work, out)
        # items produced by the header itself
        pend = []
        for w in work:
            b, prev, e, p, st = w
            if st == 0 and b == h:
                backs.append((prev, e, p))
            elif st == 0 and b not in L:
                exits.append((b, prev, e, p))
            else:
                pend.append(w)
        first = [True]
        self._run2(fn, pend, args, depth, out, L, h, backs, exits)

    def _run2(self, fn, work, args, depth, out, L, h, backs, exits):
        loops = fn.loops()
        while work:
            b, prev, env, path, start = work.pop()
            if start == 0:
                if b == h:
                    backs.append((prev, env, path)); continue
                if b not in L:
                    exits.append((b, prev, env, path)); continue
                if b in loops and prev is not None and prev not in loops[b] and \
                        self._symbolic(fn, b, prev, env, path, args):
                    self._summarise(fn, b, prev, dict(env), path, args, depth, work, out)
                    continue
            self._block(fn, b, prev, dict(env), path, args, depth, start, work, out)
            if len(out) + len(work) > self.max_paths:
                raise AnalysisBroken("too many partitions in %s" % fn.name)

    def val(self, fn, ref, env, args):
        if isinstance(ref, list):
            t = ref[0]
            if t == "c":
                return Poly.c(ref[1])
            if t in ("n", "z"):
                return Poly.c(0)
            if t == "a":
                return args[ref[1]]
            if t == "g":
                return Poly.a(("reg", ("glob", ref[1])))
            if t == "ge":
                return self.val(fn, ref[1], env, args) + Poly.c(ref[2])
            if t == "f":
                return Poly.a(("fl", ref[1]))
            if t == "V":
                return self.agg([Poly.c(b) for b in ref[1:]])
            return Poly.a(("undef",))
        v = env.get(ref)
        if v is None:
            raise AnalysisBroken("undefined value in %s" % fn.name)
        return v

    @staticmethod
    def agg(vs):
        """a small struct passed by value"""
        return Poly.a(("agg", tuple(v.key() for v in vs)))

    @staticmethod
    def unagg(v):
        for m in v.t:
            if len(v.t) == 1 and len(m) == 1 and v.t[m] == 1 and isinstance(m[0], tuple) and m[0][0] == "agg":
                return [Poly(dict(k)) for k in m[0][1]]
        return None

    @staticmethod
    def split(p):
        """pointer poly -> (region atom, rest Poly)"""
        regs = [m for m in p.t if len(m) == 1 and isinstance(m[0], tuple) and m[0][0] == "reg"]
        if len(regs) == 1 and p.t[regs[0]] == 1:
            t = dict(p.t); del t[regs[0]]
            return regs[0][0], Poly(t)
        return None, p

    def load(self, p, path, ty=None):
        r, off = self.split(p)
        c = off.const()
        if r in path.freed:
            path.ev("uaf", r, self.here)
        if r is not None and c is not None:
            if (r, c) in path.mem:
                return path.mem[(r, c)]
            if r in path.dirty:
                return Poly.a(("ldd", r, c, len(path.events)))
            if self.cell:
                v = self.cell(r, c)
                if v is not None:
                    path.mem[(r, c)] = v
                    return v
            g = self._const_global(r, c, ty)
            if g is not None:
                return g
            if r in path.zero:
                return Poly.c(0)
            if isinstance(r[1], tuple) and r[1][0] == "heap":
                path.ev("uninit", r, c, self.here)
            v = Poly.a(("ld", r, c))
            return v
        return Poly.a(("ldx", ("poly", p.key()), len(path.events)))

    def _const_global(self, r, c, ty):
        if isinstance(r[1], tuple) and r[1][0] == "glob":
            g = self.P.globals.get(r[1][1])
            if g and g.get("arr") is not None and g.get("es") and c >= 0 and c % g["es"] == 0 and c // g["es"] < len(g["arr"]) \
                    and (g.get("const") or "#" in r[1][1] and self.P.never_written(r[1][1])):
                return Poly.c(g["arr"][c // g["es"]])
            if g and g.get("str") is not None and g.get("const") and ty == "i8" and 0 <= c < len(g["str"].encode()):
                return Poly.c(g["str"].encode()[c])
            if c:
                return None
            if g and isinstance(g.get("init"), list) and g["init"][0] == "c" and \
                    (g.get("const") or "#" in r[1][1] and self.P.never_written(r[1][1])):
                return Poly.c(g["init"][1])
        return None

    def bound(self, p, n, path):
        """an access outside a region of known size is an event"""
        r, off = self.split(p)
        o = off.const()
        if r in path.size and o is not None and n and (o < 0 or o + n > path.size[r]):
            path.ev("oob", r, o, n, self.here)

    def alloc(self, path, where, size, zero=False):
        path.nreg += 1
        p = reg(("heap", where, path.nreg))
        path.ev("alloc", p, size, zero)
        r, _ = self.split(p)
        if size.const() is not None:
            path.size[r] = size.const()
        if zero:
            path.zero = path.zero | {r}
        return p

    def store(self, p, v, path):
        r, off = self.split(p)
        c = off.const()
        if r in path.freed:
            path.ev("uaf", r, self.here)
        if r is not None and c is not None:
            path.mem[(r, c)] = v
            path.ev("store", r, c, v)
        else:
            path.ev("storex", p, v)
            if r is not None:
                for k in [k for k in path.mem if k[0] == r]:
                    del path.mem[k]
                path.dirty = path.dirty | {r}

    def compare(self, path, pr, a, b):
        """True / False / list of (path, bool)"""
        if pr[0] in "us" and pr not in ("ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle"):
            pass
        core = pr if pr in ("eq", "ne") else pr[1:]
        d = a - b
        c = d.const()
        if c is not None:
            # pointers / constants
            if pr[0] == "u" and pr not in ("eq", "ne"):
                ca, cb = a.const(), b.const()
                if ca is not None and cb is not None:
                    M = (1 << 64) - 1
                    c = (ca & M) - (cb & M)
            return {"eq": c == 0, "ne": c != 0, "gt": c > 0, "ge": c >= 0, "lt": c < 0, "le": c <= 0}[core]
        # a region address is never null
        if core in ("eq", "ne"):
            ra, _ = self.split(a); rb, _ = self.split(b)
            if (ra is not None and b.const() == 0) or (rb is not None and a.const() == 0):
                return core == "ne"
            own = lambda r: r is not None and isinstance(r[1], tuple) and r[1][0] in ("heap", "stk", "glob")
            if own(ra) and own(rb) and ra != rb:
                return core == "ne"
        # normal form: pred on d
        k = (core, d.key())
        if k in path.facts:
            return path.facts[k]
        if self.oracle:
            r = self.oracle(path, core, a, b)
            if r is True or r is False:
                return r
            if r is not None:
                outs = []
                for extra, t in r:
                    q = path.copy(); q.extra = extra
                    outs.append((q, t))
                return outs
        outs = []
        for t in (True, False):
            q = path.copy()
            self._learn(q, core, d, t)
            outs.append((q, t))
        return outs

    @staticmethod
    def _learn(q, core, d, t):
        neg = {"eq": "ne", "ne": "eq", "gt": "le", "le": "gt", "ge": "lt", "lt": "ge"}
        sw = {"eq": "eq", "ne": "ne", "gt": "lt", "lt": "gt", "ge": "le", "le": "ge"}
        f = q.facts
        md = -d
        for c, dd in ((core, d), (sw[core], md)):
            f[(c, dd.key())] = t
            f[(neg[c], dd.key())] = not t
            tr = c if t else neg[c]
            if tr in ("gt", "lt"):
                f[("eq", dd.key())] = False; f[("ne", dd.key())] = True
                f[("ge", dd.key())] = tr == "gt"; f[("le", dd.key())] = tr == "lt"
            if tr == "eq":
                for x, y in (("gt", False), ("lt", False), ("ge", True), ("le", True)):
                    f[(x, dd.key())] = y

    def _block(self, fn, b, prev, env, path, args, depth, start, work, out):
        bl = fn.blocks[b]
        i = max(start, 0)
        if start == 0:
            phis = {}
            while i < len(bl) and bl[i].op == "phi":
                for r, p in bl[i].d["in_"]:
                    if p == prev:
                        phis[bl[i].i] = self.val(fn, r, env, args)
                        break
                else:
                    raise AnalysisBroken("phi without incoming edge in %s" % fn.name)
                i += 1
            env.update(phis)
        V = lambda r: self.val(fn, r, env, args)
        while i < len(bl):
            x = bl[i]
            self.steps += 1
            if self.steps > self.max_steps:
                raise Endless(path, fn, x)
            op = x.op
            if x.d.get("ty", "")[:1] == "<" and op != "alloca":
                env[x.i] = self.vector(op, x, V, path)
            elif op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze", "fpext", "fptrunc", "sitofp",
                      "uitofp", "fptosi", "fptoui"):
                v = V(x.args[0])
                c = v.const()
                ty = x.d.get("ty", "")
                if self.typed and c is None:
                    v = self.typed(op, v, x.d.get("ft", ""), ty)
                if c is None and self.narrow and op == "trunc":
                    v = Poly.a(("trunc", ty, v.key()))
                if c is not None and op in ("fptosi", "fptoui"):
                    v = Poly.c(int(c))
                if c is not None and op in ("sitofp", "uitofp") and isinstance(c, int) and x.d.get("ft", "")[:1] == "i" and x.d["ft"][1:].isdigit():
                    w = int(x.d["ft"][1:])
                    if w > 1 and op == "sitofp" and c >> (w - 1) == 1:
                        v = Poly.c(c - (1 << w))
                    if w > 1 and op == "uitofp" and c < 0:
                        v = Poly.c(c + (1 << w))
                if c is not None and op in ("zext", "trunc") and ty[:1] == "i" and ty[1:].isdigit():
                    ft = x.d.get("ft", "")
                    if op == "zext" and ft[:1] == "i" and ft[1:].isdigit():
                        c &= (1 << int(ft[1:])) - 1
                    if op == "trunc":
                        w = int(ty[1:]); c &= (1 << w) - 1
                        if w > 1 and c >> (w - 1):
                            c -= 1 << w
                    v = Poly.c(c)
                env[x.i] = v
            elif op == "add":
                env[x.i] = V(x.args[0]) + V(x.args[1])
            elif op == "sub":
                env[x.i] = V(x.args[0]) - V(x.args[1])
            elif op == "mul":
                env[x.i] = V(x.args[0]) * V(x.args[1])
            elif op == "shl" and V(x.args[1]).const() is not None:
                env[x.i] = V(x.args[0]) * Poly.c(1 << V(x.args[1]).const())
            elif op in ("udiv", "sdiv", "urem", "srem", "and", "or", "xor", "lshr", "ashr", "shl", "fadd", "fsub", "fmul",
                        "fdiv", "frem"):
                env[x.i] = self.arith(op, V(x.args[0]), V(x.args[1]), x)
            elif op in ("icmp", "fcmp"):
                a, c = V(x.args[0]), V(x.args[1])
                pr = x.d["pr"]
                if op == "fcmp":
                    pr = pr if pr in ("eq", "ne") else {"o": "s", "u": "s"}.get(pr[0], "s") + pr[1:]
                    if pr == "sne" or pr == "seq":
                        pr = pr[1:]
                env[("cmp", x.i)] = (pr if pr in ("eq", "ne") else pr[1:], a - c)
                r = self.compare(path, pr, a, c)
                if r is True or r is False:
                    env[x.i] = Poly.c(int(r))
                else:
                    for q, t in r[1:]:
                        e2 = dict(env); e2[x.i] = Poly.c(int(t))
                        work.append((b, prev, e2, q, i + 1))
                    path, t = r[0]
                    env[x.i] = Poly.c(int(t))
            elif op == "select":
                c = V(x.args[0]).const()
                if c is None:
                    raise AnalysisBroken("undecided select in %s" % fn.name)
                env[x.i] = V(x.args[1] if c & 1 else x.args[2])
            elif op == "getelementptr":
                d = x.d
                if d.get("o") is None:
                    env[x.i] = Poly.a(("gep?", fn.name, x.i))
                else:
                    p = V(d["b"]) + Poly.c(d["o"])
                    for r, sc in d["v"]:
                        p = p + V(r) * Poly.c(sc)
                    env[x.i] = p
            elif op == "alloca":
                path.nreg += 1
                env[x.i] = reg(("stk", fn.name, x.i, path.nreg))
                if x.d.get("sz") and not x.args:
                    path.size[("reg", ("stk", fn.name, x.i, path.nreg))] = x.d["sz"]
            elif op == "load":
                self.here = x
                self.bound(V(x.args[0]), x.d.get("sz", 0), path)
                if (x.d.get("ty") or "")[:2] == "S:":
                    env[x.i] = self.agg([self.load(V(x.args[0]) + Poly.c(o), path)
                                         for o in range(0, x.d.get("sz", 0), 8)])
                else:
                    env[x.i] = self.load(V(x.args[0]), path, x.d.get("ty"))
            elif op == "store":
                self.here = x
                self.bound(V(x.args[1]), x.d.get("sz", 0), path)
                v = V(x.args[0])
                vs = self.unagg(v)
                if vs is None:
                    self.store(V(x.args[1]), v, path)
                else:
                    for k, q in enumerate(vs):
                        self.store(V(x.args[1]) + Poly.c(8 * k), q, path)
            elif op == "br":
                s = x.d["s"]
                if "c" in x.d:
                    cv = V(x.d["c"])
                    cm = env.get(("cmp", x.d["c"])) if isinstance(x.d["c"], int) else None
                    if cm is not None and "tests" in env:
                        for hh, LL in fn.loops().items():
                            if b in LL and (s[0] in LL) != (s[1] in LL):
                                env["tests"] = env["tests"] + ((b, cm[0], cm[1], s[0] in LL),)
                                break
                    c = cv.const()
                    if c is None:
                        r = self.compare(path, "ne", cv, Poly.c(0))
                        if r is True or r is False:
                            c = int(r)
                        else:
                            for q, t in r:
                                work.append((s[0] if t else s[1], b, env, q, 0))
                            return
                    work.append((s[0] if c & 1 else s[1], b, env, path, 0))
                else:
                    work.append((s[0], b, env, path, 0))
                return
            elif op == "switch":
                v = V(x.d["c"])
                c = v.const()
                s, cs = x.d["s"], x.d["cs"]
                if c is not None:
                    t = s[0]
                    for k, tt in zip(cs, s[1:]):
                        if k == c or (k & 0xffffffff) == (c & 0xffffffff):
                            t = tt
                    work.append((t, b, env, path, 0))
                else:
                    rem = [path]
                    for k, tt in zip(cs, s[1:]):
                        nr = []
                        for pth in rem:
                            r = self.compare(pth, "eq", v, Poly.c(k))
                            if r is True:
                                work.append((tt, b, env, pth, 0))
                            elif r is False:
                                nr.append(pth)
                            else:
                                for q, t in r:
                                    if t:
                                        work.append((tt, b, env, q, 0))
                                    else:
                                        nr.append(q)
                        rem = nr
                    for pth in rem:
                        work.append((s[0], b, env, pth, 0))
                return
            elif op == "ret":
                out.append((V(x.args[0]) if x.args else None, path))
                return
            elif op == "unreachable":
                return
            elif op == "call":
                self.fpv = V(x.d["fp"]) if "fp" in x.d else None
                outs = self.call(fn, x, [V(r) for r in x.args], path, depth)
                for v, q in outs[1:]:
                    e2 = dict(env)
                    if v is not None:
                        e2[x.i] = v
                    work.append((b, prev, e2, q, i + 1))
                if not outs:
                    return
                v, path = outs[0]
                if v is not None:
                    env[x.i] = v
            elif op == "fneg":
                env[x.i] = -V(x.args[0])
            elif op == "insertvalue" and len(x.d.get("ix", ())) == 1:
                k = x.d["ix"][0]
                vs = self.unagg(V(x.args[0])) or []
                vs = vs + [Poly.a(("undef",))] * (k + 1 - len(vs))
                vs[k] = V(x.args[1])
                env[x.i] = self.agg(vs)
            elif op == "extractvalue" and len(x.d.get("ix", ())) == 1 and \
                    len(self.unagg(V(x.args[0])) or ()) > x.d["ix"][0]:
                env[x.i] = self.unagg(V(x.args[0]))[x.d["ix"][0]]
            elif op in ("extractvalue", "insertvalue", "atomicrmw", "cmpxchg", "va_arg"):
                env[x.i] = Poly.a(("v", fn.name, x.i, len(path.events)))
            else:
                raise AnalysisBroken("unhandled %s in %s" % (op, fn.name))
            i += 1
        return

    def vector(self, op, x, V, path):
        """16-byte vectors (SSE), byte by byte whatever their element type"""
        ty = x.d["ty"]
        n, el = ty[1:-1].split(" x ")
        n = int(n)

        def bytes_of(r):
            a = [v.const() for v in self.unagg(V(r)) or ()]
            return a if len(a) == 16 and None not in a else None
        if op == "load" and x.d.get("sz") == 16:
            self.here = x
            self.bound(V(x.args[0]), 16, path)
            return self.agg([self.load(V(x.args[0]) + Poly.c(o), path, "i8") for o in range(16)])
        if op == "insertelement" and el == "i8" and n == 16:
            vs = list(self.unagg(V(x.args[0])) or [Poly.a(("undef",))] * 16)
            k = V(x.args[2]).const()
            if k is None or k >= n:
                raise AnalysisBroken("vector element not determined")
            vs[k] = V(x.args[1])
            return self.agg(vs)
        if op in ("bitcast", "freeze"):
            return V(x.args[0])
        if op == "sext" and n == 16:
            a = bytes_of(x.args[0])
            if a:
                return self.agg([Poly.c(255 if v & 1 else 0) for v in a])
        if op in ("icmp", "xor", "and", "or", "add", "sub") and (n == 16 or op in ("xor", "and", "or")):
            a, b = bytes_of(x.args[0]), bytes_of(x.args[1])
            if a and b:
                if op == "icmp":
                    pr = x.d["pr"]
                    f = lambda v: (v & 255) - (256 if v & 128 and pr[0] == "s" else 0)
                    g = {"eq": lambda u, v: u == v, "ne": lambda u, v: u != v, "gt": lambda u, v: u > v, "lt": lambda u, v: u < v,
                         "ge": lambda u, v: u >= v, "le": lambda u, v: u <= v}[pr if pr in ("eq", "ne") else pr[1:]]
                    return self.agg([Poly.c(int(g(f(u), f(v)))) for u, v in zip(a, b)])
                g = {"xor": lambda u, v: u ^ v, "and": lambda u, v: u & v, "or": lambda u, v: u | v, "add": lambda u, v: u + v,
                     "sub": lambda u, v: u - v}[op]
                return self.agg([Poly.c(g(u & 255, v & 255) & 255) for u, v in zip(a, b)])
        raise AnalysisBroken("vector %s is not followed" % op)

    def arith(self, op, a, b, x):
        ty = x.d.get("ty", "i64") if x is not None else "i64"
        ca, cb = a.const(), b.const()
        if op in ("fadd", "fsub", "fmul"):
            return {"fadd": a + b, "fsub": a - b, "fmul": a * b}[op]
        if ca is not None and cb is not None:
            w = ty
            w = int(w[1:]) if w[:1] == "i" and w[1:].isdigit() else 64
            M = (1 << w) - 1
            sg = lambda n: n - (1 << w) if w > 1 and (n & M) >> (w - 1) else n & M
            ua, ub = ca & M, cb & M
            sa, sb = sg(ca & M), sg(cb & M)
            if op in ("udiv", "urem", "sdiv", "srem") and ub == 0:
                return Poly.a(("div0",))
            q = None
            if op == "udiv":
                q = ua // ub
            elif op == "urem":
                q = ua % ub
            elif op in ("sdiv", "srem"):
                d = abs(sa) // abs(sb)
                d = d if (sa < 0) == (sb < 0) else -d
                q = d if op == "sdiv" else sa - d * sb
            elif op == "and":
                q = ua & ub
            elif op == "or":
                q = ua | ub
            elif op == "xor":
                q = ua ^ ub
            elif op == "lshr":
                q = ua >> ub
            elif op == "ashr":
                q = sa >> ub
            elif op == "shl":
                q = ua << ub
            if q is not None:
                return Poly.c(sg(q & M) if w > 1 else q & 1)
        if op in ("and", "or", "xor") and ty == "i1":
            if op == "and" and 0 in (ca, cb):
                return Poly.c(0)
            if op == "or" and (ca in (1, -1) or cb in (1, -1)):
                return Poly.c(1)
            if op == "xor" and cb in (1, -1):
                return Poly.c(1) - a
        if op in ("udiv", "sdiv") and cb:
            if all(v % cb == 0 for v in a.t.values()):
                return Poly({k: v // cb for k, v in a.t.items()})
        if op in ("udiv", "urem") and cb and cb > 0:
            # a = cb*q + r with 0 <= r < cb
            r0 = a.t.get((), 0) % cb
            if all(v % cb == 0 for k, v in a.t.items() if k != ()):
                if op == "urem":
                    return Poly.c(r0)
                return Poly({k: (v - r0) // cb if k == () else v // cb for k, v in a.t.items()})
        if op in ("udiv", "sdiv"):
            if a == b:
                return Poly.c(1)
            # exact division of a single monomial
            if len(b.t) == 1:
                (m, c), = b.t.items()
                q = {}
                ok = True
                for k, v in a.t.items():
                    kk = list(k)
                    try:
                        for at in m:
                            kk.remove(at)
                    except ValueError:
                        ok = False; break
                    if v % c:
                        ok = False; break
                    q[tuple(kk)] = v // c
                if ok:
                    return Poly(q)
        nm = {"udiv": "div", "sdiv": "div", "urem": "rem", "srem": "rem"}.get(op, op)
        if nm in ("and", "or", "xor"):
            ks = sorted([a.key(), b.key()], key=repr)
            return Poly.a((nm, ("poly", ks[0]), ("poly", ks[1])))
        return Poly.a((nm, ("poly", a.key()), ("poly", b.key())))

    def call(self, fn, x, args, path, depth):
        f = x.callee
        self.here = x
        if f is None and self.fpv is not None:
            r, off = self.split(self.fpv)
            if r is not None and isinstance(r[1], tuple) and r[1][0] == "glob" and r[1][1] in self.P.fns:
                f = r[1][1]
        if self.ext:
            r = self.ext(f, args, path, x)
            if r is not None:
                if isinstance(r, list):
                    return r
                return [(r, path)]
        if f in ("free", "PDC_free"):
            self.release(args[0], path)
            return [(Poly.c(0), path)]
        if f in NOEFFECT or (f or "").startswith("llvm.dbg"):
            return [(Poly.c(0), path)]
        if f in ("realloc", "PDC_realloc"):
            return [(self.realloc(args[0], args[1], path, fn.name), path)]
        if f in ("malloc", "calloc", "PDC_malloc", "PDC_calloc"):
            sz = args[0] * args[1] if f in ("calloc", "PDC_calloc") else args[-1]
            return [(self.alloc(path, fn.name, sz, f in ("calloc", "PDC_calloc")), path)]
        if f and (f.startswith(("llvm.memcpy", "llvm.memmove")) or f in ("memcpy", "memmove", "__memcpy_chk")):
            self.memcpy(args[0], args[1], args[2], path)
            return [(args[0], path)]
        if f and (f.startswith("llvm.memset") or f == "memset"):
            path.ev("memset", args[0], args[1], args[2])
            if args[2].const():
                self.bound(args[0], args[2].const(), path)
            n = args[2].const()
            r, off = self.split(args[0])
            if n is not None and r is not None and off.const() is not None and args[1].const() == 0:
                if off.const() == 0 and (n == path.size.get(r) or r in path.zero and r not in path.dirty):
                    for k in [k for k in path.mem if k[0] == r and k[1] < n]:
                        del path.mem[k]
                    path.zero = path.zero | {r}; path.dirty = path.dirty - {r}
                    return [(args[0], path)]
                if r in path.zero and r not in path.dirty:
                    for k in [k for k in path.mem if k[0] == r and off.const() <= k[1] < off.const() + n]:
                        del path.mem[k]
                    return [(args[0], path)]
                for k in [k for k in path.mem if k[0] == r and off.const() <= k[1] < off.const() + n]:
                    path.mem[k] = Poly.c(0)
                for o in range(off.const(), off.const() + min(n, 512), 4):
                    path.mem[(r, o)] = Poly.c(0)
            return [(args[0], path)]
        if f and f.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
            lo = "min" in f
            r = self.compare(path, "slt", args[0], args[1])
            pick = lambda t: args[0] if (t == lo) else args[1]
            if r is True or r is False:
                return [(pick(r), path)]
            return [(pick(t), q) for q, t in r]
        g = self.P.fns.get(f) if f else None
        if g is not None and (self.follow is None or self.follow(f)):
            return self._call(g, args, path, depth + 1)
        path.ev("call", f, args, x)
        return [(Poly.a(("call", f, len(path.events))), path)]

    def realloc(self, p, n, path, where):
        new = self.alloc(path, where, n)
        r, off = self.split(p)
        if r is not None:
            if r in path.dirty:
                path.dirty = path.dirty | {self.split(new)[0]}
            k = n.const()
            for (q, o), v in [i for i in path.mem.items() if i[0][0] == r]:
                if k is None or o < k:
                    path.mem[(self.split(new)[0], o)] = v
            self.release(p, path)
        return new

    def release(self, p, path):
        """free(): a region freed twice, or freed elsewhere than at its start, is an event"""
        r, off = self.split(p)
        if r is None:
            return
        if r in path.freed or off.const() != 0:
            path.ev("badfree", r, self.here)
        path.ev("freed", r, self.here)
        path.freed = path.freed | {r}

    def memcpy(self, d, s, n, path):
        path.ev("memcpy", d, s, n)
        c = n.const()
        if c:
            self.bound(d, c, path); self.bound(s, c, path)
        rd, od = self.split(d); rs, os_ = self.split(s)
        for r in (rd, rs):
            if r in path.freed and c != 0:
                path.ev("uaf", r, self.here)
        if c is not None and rd is not None and rs is not None and od.const() is not None and os_.const() is not None:
            o1, o2 = od.const(), os_.const()
            # copy known cells, and lazily materialise 8- or 4-byte cells the callback knows
            cells = {k[1]: v for k, v in path.mem.items() if k[0] == rs and o2 <= k[1] < o2 + c}
            if self.cell:
                for o in range(o2, o2 + min(c, 4096), 4):
                    if o not in cells:
                        v = self.cell(rs, o)
                        if v is not None:
                            cells[o] = v
            if rs in path.zero and rs not in path.dirty:
                for o in range(o2, o2 + min(c, 4096), 4):
                    cells.setdefault(o, Poly.c(0))
            for o in [k[1] for k in path.mem if k[0] == rd and o1 <= k[1] < o1 + c]:
                del path.mem[(rd, o)]
            for o, v in cells.items():
                path.mem[(rd, o1 + o - o2)] = v
        elif rd is not None:
            for k in [k for k in path.mem if k[0] == rd]:
                del path.mem[k]
            path.dirty = path.dirty | {rd}


def mentions(a, atoms):
    if a in atoms:
        return True
    if isinstance(a, tuple):
        return any(mentions(x, atoms) for x in a)
    return False


def deep_subst(p, atom, val):
    """replace an atom also inside composite atoms"""
    def f(a):
        if a == atom:
            return val
        if isinstance(a, tuple) and mentions(a, {atom}):
            return Poly.a(_ds(a, atom, val))
        return None
    return p.subst(f)


def _ds(a, atom, val):
    if a == atom:
        return ("poly", val.key())
    if isinstance(a, tuple):
        if len(a) == 2 and a[0] == "poly":
            return ("poly", deep_subst(Poly(dict(a[1])), atom, val).key())
        return tuple(_ds(x, atom, val) for x in a)
    return a


def trip_count(d, it, core, I):
    """number of iterations for which 'd core 0' holds, d linear in it, starting true"""
    s = Poly(); d0 = Poly()
    for m, c in d.t.items():
        n = m.count(it)
        if n == 0:
            d0 = d0 + Poly({m: c})
        elif n == 1:
            mm = list(m); mm.remove(it)
            s = s + Poly({tuple(mm): c})
        else:
            return None
    if any(mentions(a, {it}) for a in d0.atoms()) or any(mentions(a, {it}) for a in s.atoms()):
        return None
    sc = s.const()
    if sc == 0:
        return None
    if core == "ne":
        if sc in (1, -1):
            return -d0 if sc == 1 else d0
        q = I.arith("udiv", -d0, s, None)
        return q
    if core in ("lt", "le") and sc == 1:
        return -d0 if core == "lt" else -d0 + Poly.c(1)
    if core in ("gt", "ge") and sc == -1:
        return d0 if core == "gt" else d0 + Poly.c(1)
    if core == "lt":
        q = I.arith("udiv", -d0, s, None)
        if not any(isinstance(a, tuple) and a[0] == "div" for a in q.atoms()):
            return q
    return None
