"""K01: the containers keep what they are given.  Every operation of the vector, the double-ended queue, the stack, the
hash tables and the set is abstractly interpreted from every heap shape reachable with a bounded number of elements
(shapes are canonicalised, so the exploration closes over all histories within the bound); the elements are symbolic, the
keys carry only an equality and a hash.  Each step is compared with the abstract sequence, map or set, with and without an
allocation that fails, and the heap is checked for reads of freed or unset memory, overruns and leaks."""
import os
import time
import traceback
import multiprocessing as mp
import itertools
from fractions import Fraction
import ir
from report import Check
from absint import Interp, Path, reg
from sym import Poly
from copies import Layout
from frontend import AnalysisBroken

PID = "K01"
c = Poly.c
NULL = c(0)
ALLOCS = ("malloc", "calloc", "realloc", "PDC_malloc", "PDC_calloc", "PDC_realloc")


def atom(*a):
    return Poly.a(a)


class KI(Interp):
    def val(self, fn, ref, env, args):
        if isinstance(ref, list) and ref[0] == "f":
            v = float(ref[1])
            if v != v:
                return Poly.a(("nan",))
            v = Fraction(v) if abs(v) != float("inf") else Fraction((1 if v > 0 else -1) << 1100)
            return c(int(v)) if v.denominator == 1 else c(v)
        return Interp.val(self, fn, ref, env, args)


class World:
    """one program part holding a container, its model of the environment, and the exploration"""

    def __init__(self, P, chk, label):
        self.P = P; self.chk = chk; self.label = label
        self.L = Layout(P)
        self.I = KI(P, ext=self.ext, oracle=self.oracle, no_summary=True, max_paths=64, max_steps=60000)
        self.hash = {}; self.cls = {}
        self.fail = None; self.nalloc = 0
        self.freeds = []
        self.steps = 0

    # ---- environment
    def ext(self, f, args, path, x):
        if f in ALLOCS:
            self.nalloc += 1
            if self.fail is not None and self.nalloc == self.fail:
                return NULL
            return None
        if f in ("exit", "abort", "_exit"):
            return []
        if f is None and self.I.fpv is not None:
            at = self.I.fpv.atoms()
            fp = next((a for a in at if isinstance(a, tuple) and a[0] == "fp"), None)
            if fp is None:
                path.ev("badcall", x)
                return NULL
            if fp[1] == "hash":
                k = self.keyof(args[0])
                if k is None:
                    path.ev("wrongkey", x); return NULL
                return c(self.hash[self.cls[k]])
            if fp[1] == "equal":
                a, b = self.keyof(args[0]), self.keyof(args[1])
                if a is None or b is None:
                    path.ev("wrongkey", x); return NULL
                return c(int(self.cls[a] == self.cls[b]))
            if fp[1] in ("kfree", "vfree"):
                path.ev("gave", fp[1], args[0])
                return NULL
        return None

    def keyof(self, p):
        for m in p.t:
            if len(p.t) == 1 and len(m) == 1 and p.t[m] == 1 and isinstance(m[0], tuple) and m[0][0] == "key":
                return m[0][1]
        return None

    def oracle(self, path, pr, a, b):
        """elements, keys and functions are addresses of different things, none of them null"""
        if pr not in ("eq", "ne"):
            return None
        ka = self.thing(a); kb = self.thing(b)
        if ka is None or kb is None:
            return None
        return (ka == kb) == (pr == "eq")

    @staticmethod
    def thing(p):
        if not p.t:
            return "null"
        for m in p.t:
            if len(p.t) == 1 and len(m) == 1 and p.t[m] == 1 and isinstance(m[0], tuple) and m[0][0] in ("item", "key", "value", "fp"):
                return m[0]
        return None

    # ---- running one operation
    def run(self, path, fn, *args):
        """-> (value, path, complaint); value None when the process ends"""
        f = self.P.fns.get(fn)
        if f is None:
            raise AnalysisBroken("operation %s not found" % fn)
        p = path.copy(); p.events = []; p.facts = {}
        self.nalloc = 0; self.I.div0 = False
        if len(args) != len(f.args):
            raise AnalysisBroken("%s takes %d arguments" % (fn, len(f.args)))
        n0 = self.I.endless
        if n0 > 12:
            raise AnalysisBroken("many traces do not end")
        self.I.endless = 0
        outs = self.I.run_ended(f, list(args), p, 60000)
        self.I.endless += n0
        self.steps += 1
        if not outs:
            return None, None, None
        if len(outs) > 1 and any(e[0] == "uninit" for e in outs[0][1].events):
            e = next(e for e in outs[0][1].events if e[0] == "uninit")
            return outs[0][0], outs[0][1], "%s: acts on memory that was never set" % self.loc(e[3])
        if len(outs) > 1:
            e = next((e for e in outs[0][1].events if e[0] in ("oob", "uaf")), None)
            if e:
                return outs[0][0], outs[0][1], "%s: acts on memory %s" % (self.loc(e[-1]), "outside what it was given" if e[0] == "oob" else "that is freed")
        if len(outs) > 1:
            raise AnalysisBroken("%s: undecided branch on a bounded shape (%s)" % (fn, outs[0][1].facts))
        v, q = outs[0]
        bad = None
        for e in q.events:
            if e[0] == "endless":
                bad = "does not end (%s)" % e[1]
            elif e[0] == "uaf":
                bad = bad or "%s: uses freed memory" % self.loc(e[2])
            elif e[0] == "oob":
                bad = bad or "%s: reaches outside its memory (%s bytes at %s)" % (self.loc(e[4]), e[3], e[2])
            elif e[0] == "badfree":
                bad = bad or "%s: frees memory that is not allocated" % self.loc(e[2])
            elif e[0] in ("badcall", "wrongkey"):
                bad = bad or "%s: calls back with something that is not a key it was given" % self.loc(e[1])
            elif e[0] in ("storex",):
                bad = bad or "writes through a pointer that is not one"
        for k, m in q.mem.items():
            if any(isinstance(a, tuple) and a[0] == "div0" for a in m.atoms()):
                bad = bad or "divides by zero"
        if v is not None and any(isinstance(a, tuple) and a[0] in ("div0",) for a in v.atoms()):
            bad = bad or "divides by zero"
        return v, q, bad

    def loc(self, x):
        return x.loc() if x is not None else "?"

    def gave(self, q):
        return sorted((e[1], repr(e[2])) for e in q.events if e[0] == "gave")

    # ---- canonical shapes
    def canon(self, path, roots, names):
        """keep what is reachable from the roots; -> (path, key, leaked)"""
        names = {k: v for k, v in names.items()}
        ren = {}; order = []

        def visit(r):
            if r in ren or r in path.freed:
                return
            if r[1][0] == "heap":
                ren[r] = ("reg", ("heap", "h", 9000 + len(ren)))
            else:
                ren[r] = r
            order.append(r)
        byreg = {}
        for (r, o), v in path.mem.items():
            byreg.setdefault(r, {})[o] = v
        for p in roots:
            r, _ = Interp.split(p)
            if r is not None:
                visit(r)
        i = 0
        while i < len(order):
            for o, v in sorted(byreg.get(order[i], {}).items()):
                for a in v.atoms():
                    if isinstance(a, tuple) and a[0] == "reg":
                        visit(a)
            i += 1
        leaked = sorted({r for r in path.size if r[1][0] == "heap" and r not in ren and r not in path.freed}, key=repr)

        def sub(a):
            if a in ren:
                return Poly.a(ren[a])
            if isinstance(a, tuple) and a[0] == "reg":
                return Poly.a(("stale",))
            if isinstance(a, tuple) and a[0] in ("item", "value"):
                return Poly.a(names[a]) if a in names else Poly.a(("stale",))
            return None
        n = Path()
        n.nreg = 10000
        for r in order:
            if r in path.size:
                n.size[ren[r]] = path.size[r]
            if r in path.zero:
                n.zero = n.zero | {ren[r]}
            if r in path.dirty:
                raise AnalysisBroken("shape with unknown cells")
            for o, v in byreg.get(r, {}).items():
                v = v.subst(sub)
                if r in path.zero and v == NULL:
                    continue
                if any(isinstance(a, tuple) and a[0] in ("stale", "ld") for a in v.atoms()):
                    continue            # no longer meaningful: as good as never set
                n.mem[(ren[r], o)] = v
        key = (tuple(sorted(((k, v.key()) for k, v in n.mem.items()), key=repr)),
               tuple(sorted(n.size.items(), key=repr)), tuple(repr(sub_root(p, ren)) for p in roots))
        return n, key, leaked, [sub_root(p, ren) for p in roots]


def sub_root(p, ren):
    return p.subst(lambda a: Poly.a(ren[a]) if a in ren else None)


class Group:
    """findings of one container operation: the first witness each"""

    def __init__(self, chk, where):
        self.chk = chk; self.where = where; self.n = {}; self.bad = {}; self.t0 = time.time()

    def enough(self):
        """a difference is known and corrupted shapes keep multiplying"""
        return self.bad and time.time() - self.t0 > 60

    def ok(self, op):
        self.n[op] = self.n.get(op, 0) + 1

    def no(self, op, what):
        self.n[op] = self.n.get(op, 0) + 1
        self.bad.setdefault(op, what)

    def judge(self, op, bad, holds, what):
        if bad:
            self.no(op, bad)
        elif not holds:
            self.no(op, what)
        else:
            self.ok(op)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for op in sorted(self.n):
            self.chk.oblige(op not in self.bad, "%s:%s" % (self.where, op),
                            "%s %s: %s" % (self.where, op, self.bad.get(op)),
                            "%s %s: agrees in %d steps" % (self.where, op, self.n[op]))
            self.chk.count("steps", self.n[op])


# ------------------------------------------------------------------ sequences
def explore_seq(W, G, start, roots, ops, limit, observe, finish, cap=60000):
    """start: Path; ops: name -> fn(path, roots, model) -> list of (label, [(value,path,bad)], model', expect(value,path,n))"""
    st = [(start, roots, ())]
    seen = set()
    n = 0
    while st:
        if G.enough():
            break
        path, rts, model = st.pop()
        for name, op in ops.items():
            for tag, runs, m2, judge in op(path, rts, model):
                if len(m2) > limit:
                    continue
                v, q, bad = runs
                if q is None:
                    judge(None, None, None)
                    continue
                if not judge(v, q, bad):
                    continue
                names = {}
                for i, a in enumerate(m2):
                    for t in a.atoms():
                        names[t] = ("item", i)
                p2, key, leaked, r2 = W.canon(q, rts, names)
                if leaked:
                    G.no(name, "leaves memory behind nobody can reach (%d elements)" % len(model)); continue
                m2 = tuple(Poly.a(("item", i)) for i in range(len(m2)))
                key = (key, len(m2))
                if key in seen:
                    continue
                seen.add(key)
                n += 1
                if n > cap:
                    raise AnalysisBroken("more than %d shapes" % cap)
                observe(p2, r2, m2)
                finish(p2, r2, m2)
                st.append((p2, r2, m2))
    return n


NEW = Poly.a(("item", "new"))


def deque(P, chk, thorough, G):
    W = World(P, chk, "deque")
    p0 = Path()
    d = Poly.a(("reg", ("obj", "deque")))
    v, p, bad = W.run(p0, "PDC_deque_init", d)
    G.judge("init", bad, True, "")
    p, _, leaked, (d,) = W.canon(p, [d], {})

    def push(end):
        fn = "PDC_deque_push_%s" % end

        def op(path, r, m):
            m2 = (NEW,) + m if end == "front" else m + (NEW,)

            def judge(v, q, bad):
                G.judge("push_" + end, bad, True, "")
                return not bad
            yield end, W.run(path, fn, r[0], NEW), m2, judge
            W.fail = 1
            try:
                v, q, bad = W.run(path, fn, r[0], NEW)
                n = W.nalloc
            finally:
                W.fail = None
            if n and q is not None:
                def judge2(v, q, bad):
                    G.judge("push_%s without memory" % end, bad, True, "")
                    return not bad
                yield end, (v, q, bad), m, judge2
        return op

    def pop(end):
        fn = "PDC_deque_pop_%s" % end

        def op(path, r, m):
            want = NULL if not m else (m[0] if end == "front" else m[-1])
            m2 = m if not m else (m[1:] if end == "front" else m[:-1])
            for f in (None, 1):
                W.fail = f
                try:
                    v, q, bad = W.run(path, fn, r[0])
                    n = W.nalloc
                finally:
                    W.fail = None
                if f and not n:
                    continue

                def judge(v, q, bad):
                    if q is None:
                        return False
                    G.judge("pop_" + end, bad, v == want, "gives %r instead of %r with %d elements" % (v, want, len(m)))
                    return not bad and v == want
                yield end, (v, q, bad), m2, judge
        return op
    lim = 40 if thorough else 34

    def observe(path, r, m):
        o = W.L.off("PDC_deque_t", "size")
        G.judge("size", None, path.mem.get((Interp.split(r[0])[0], o), NULL) == c(len(m)), "size is not %d" % len(m))

    def finish(path, r, m):
        if len(m) > 4:
            return
        v, q, bad = W.run(path, "PDC_deque_free", r[0])
        _, _, leaked, _ = W.canon(q, [], {}) if q else (0, 0, [], 0)
        G.judge("free", bad, not leaked, "leaves memory allocated")
    n = explore_seq(W, G, p, [d], {"push_front": push("front"), "push_back": push("back"), "pop_front": pop("front"),
                                   "pop_back": pop("back")}, lim, observe, finish)
    chk.count("shapes", n)


def stack(P, chk, thorough, G):
    W = World(P, chk, "stack")
    d = Poly.a(("reg", ("obj", "stack")))
    v, p, bad = W.run(Path(), "stack_init", d)
    G.judge("init", bad, True, "")
    p, _, _, (d,) = W.canon(p, [d], {})

    def push(path, r, m):
        def judge(v, q, bad):
            G.judge("push", bad, True, "")
            return not bad
        yield "push", W.run(path, "stack_push", r[0], NEW), m + (NEW,), judge

    def pop(path, r, m):
        def judge(v, q, bad):
            if q is None:
                G.judge("pop", None, not m, "ends the process with %d elements" % len(m))
                return False
            G.judge("pop", bad, bool(m) and v == m[-1], "gives %r with %d elements" % (v, len(m)))
            return not bad and bool(m) and v == m[-1]
        yield "pop", W.run(path, "stack_pop", r[0]), m[:-1], judge

    def observe(path, r, m):
        o = W.L.off("PDC_stack_t", "size")
        G.judge("size", None, path.mem.get((Interp.split(r[0])[0], o), NULL) == c(len(m)), "size is not %d" % len(m))

    def finish(path, r, m):
        v, q, bad = W.run(path, "stack_free", r[0])
        leaked = W.canon(q, [], {})[2] if q else []
        G.judge("free", bad, not leaked, "leaves memory allocated")
    n = explore_seq(W, G, p, [d], {"push": push, "pop": pop}, 70, observe, finish)
    chk.count("shapes", n)


def vector(P, chk, thorough, G):
    W = World(P, chk, "vector")
    for cap0, fac in \
            ((1, Fraction(2)), (2, Fraction(2)), (3, Fraction(3, 2)), (0, Fraction(2)), (1, Fraction(3, 2)), (2, Fraction(1)),
             (4, Fraction(1, 2)), (None, None)):
        f = c(int(fac)) if fac is not None and fac.denominator == 1 else c(fac) if fac is not None else None
        mk = (lambda p: W.run(p, "pdc_vector_new")) if cap0 is None else \
            (lambda p: W.run(p, "pdc_vector_create", c(cap0), f))
        v, p, bad = mk(Path())
        G.judge("create", bad, v is not None and v != NULL, "gives no vector")
        if bad or v == NULL:
            continue
        for k in (1, 2):
            W.fail = k
            v1, p1, bad1 = mk(Path())
            n = W.nalloc
            W.fail = None
            if n >= k:
                leaked = W.canon(p1, [], {})[2]
                G.judge("create without memory", bad1, v1 == NULL and not leaked, "returns %r or leaves memory behind" % v1)
        p, _, leaked, (d,) = W.canon(p, [v], {})

        def add(path, r, m):
            def judge(v, q, bad):
                G.judge("add", bad, True, "")
                return not bad
            yield "add", W.run(path, "pdc_vector_add", r[0], NEW), m + (NEW,), judge
            W.fail = 1
            try:
                v, q, bad = W.run(path, "pdc_vector_add", r[0], NEW)
                n = W.nalloc
            finally:
                W.fail = None
            if n:
                def judge2(v, q, bad):
                    G.judge("add without memory", bad, True, "")
                    return not bad
                yield "add", (v, q, bad), m, judge2
            v, q, bad = W.run(path, "pdc_vector_add", r[0], NULL)
            yield "add", (v, q, bad), m, judge

        def observe(path, r, m):
            v, q, bad = W.run(path, "pdc_vector_size", r[0])
            G.judge("size", bad, v == c(len(m)), "%r instead of %d" % (v, len(m)))
            for i in list(range(len(m))) + [len(m), len(m) + 1, 1 << 40]:
                v, q, bad = W.run(path, "pdc_vector_get", r[0], c(i))
                w = m[i] if i < len(m) else NULL
                G.judge("get", bad, v == w, "element %d of %d is %r" % (i, len(m), v))
            if len(m) > 12 and len(m) % 16:
                return
            it, q, bad = W.run(path, "pdc_vector_iterator_new", r[0])
            G.judge("iterator", bad, it != NULL, "no iterator")
            if bad or it == NULL:
                return
            for i in range(len(m) + 1):
                v, q, bad = W.run(q, "pdc_vector_iterator_has_next", it)
                if bad or q is None:
                    G.no("iterator", bad or "ends the process"); return
                G.judge("iterator", bad, v is not None and v.const() is not None and bool(v.const()) == (i < len(m)),
                        "has_next is %r at %d of %d" % (v, i, len(m)))
                v, q, bad = W.run(q, "pdc_vector_iterator_next", it)
                w = m[i] if i < len(m) else NULL
                G.judge("iterator", bad, v == w, "item %d of %d is %r" % (i, len(m), v))
            v, q, bad = W.run(q, "pdc_vector_iterator_destroy", it)
            G.judge("iterator", bad, q is not None and not W.canon(q, r, {})[2], "leaves memory allocated")

        def finish(path, r, m):
            if len(m) > 6:
                return
            # the vector owns its items: give each its own memory
            q = path.copy()
            own = {}
            for i, a in enumerate(m):
                R = ("reg", ("heap", "item", 20000 + i))
                own[next(iter(a.atoms()))] = Poly.a(R)
                q.size[R] = 8
            q.mem = {k: v.subst(lambda a: own.get(a)) for k, v in q.mem.items()}
            v, q, bad = W.run(q, "pdc_vector_destroy", r[0])
            leaked = W.canon(q, [], {})[2] if q else []
            G.judge("destroy", bad, not leaked, "leaves memory allocated (%d elements)" % len(m))
        n = explore_seq(W, G, p, [d], {"add": add}, 110 if cap0 is None else 12, observe, finish)
        chk.count("shapes", n)
    for fac in (3, 5):
        v, p, bad = W.run(Path(), "pdc_vector_create", c(1), c(2))
        _, p, bad = W.run(p, "pdc_vector_set_expansion_factor", v, c(fac))
        r, p, bad2 = W.run(p, "pdc_vector_get_expansion_factor", v)
        G.judge("expansion factor", bad or bad2, r == c(fac), "get gives %r after set %d" % (r, fac))


# ------------------------------------------------------------------ maps and sets
HASHES = [(0, 0, 0), (1, 1, 0), (0, 193, 5), (7, 192, 386), (0xFFFFFFFF, 0, 192)]
CLASS = {"a": 0, "a'": 0, "b": 1, "b'": 1, "d": 2}
FP = {k: Poly.a(("fp", k)) for k in ("hash", "equal", "kfree", "vfree")}


def key(k):
    return Poly.a(("key", k))


def rebuild(W, path, roots, model, extra=()):
    """canonical shape; values are renamed to their class"""
    names = {}
    m2 = {}
    for cl, (k, v) in model.items():
        for t in v.atoms():
            names[t] = ("value", cl)
        m2[cl] = (k, Poly.a(("value", cl)))
    p, kk, leaked, r = W.canon(path, roots, names)
    return p, kk, leaked, r, m2


NEWV = Poly.a(("value", "new"))


def truth(v):
    return v is not None and v.const() is not None and bool(v.const())


def is0(v):
    return v is not None and v.const() == 0


class Table:
    """a hash table (one of the two copies)"""

    def __init__(self, W, G):
        self.W = W; self.G = G

    def new(self, free):
        W = self.W
        t, p, bad = W.run(Path(), "hash_table_new", FP["hash"], FP["equal"])
        self.G.judge("new", bad, t is not None and t != NULL, "gives no table")
        if free and p is not None:
            _, p, bad = W.run(p, "hash_table_register_free_functions", t, FP["kfree"], FP["vfree"])
            self.G.judge("new", bad, True, "")
        for k in (1, 2, 3):
            W.fail = k
            v1, p1, bad1 = W.run(Path(), "hash_table_new", FP["hash"], FP["equal"])
            n = W.nalloc; W.fail = None
            if n >= k and p1 is not None:
                self.G.judge("new without memory", bad1, v1 == NULL and not W.canon(p1, [], {})[2],
                             "returns %r or leaves memory behind" % v1)
        return t, p

    def content(self, path, t, model, full=True, classes=None):
        W, G = self.W, self.G
        v, q, bad = W.run(path, "hash_table_num_entries", t)
        G.judge("num_entries", bad, v == c(len(model)), "%r instead of %d" % (v, len(model)))
        for k in (classes if classes is not None else list(CLASS)):
            v, q, bad = W.run(path, "hash_table_lookup", t, key(k))
            cl = W.cls[k]
            want = model[cl][1] if cl in model else NULL
            G.judge("lookup", bad, v == want, "a key of %d entries gives %r instead of %r" % (len(model), v, want))
        if full:
            self.iterate(path, t, model)

    def iterate(self, path, t, model):
        W, G = self.W, self.G
        it = Poly.a(("reg", ("obj", "iter")))
        _, q, bad = W.run(path, "hash_table_iterate", t, it)
        if bad or q is None:
            G.no("iterate", bad or "ends the process"); return
        got = []
        for i in range(len(model) + 1):
            v, q, bad = W.run(q, "hash_table_iter_has_more", it)
            if bad or q is None:
                G.no("iterate", bad or "ends the process"); return
            if truth(v) != (i < len(model)):
                G.no("iterate", "has_more is %r after %d of %d entries" % (v, i, len(model))); return
            v, q, bad = W.run(q, "hash_table_iter_next", it)
            if bad or q is None:
                G.no("iterate", bad or "ends the process"); return
            vs = W.I.unagg(v) if v is not None else None
            vs = [NULL, NULL] if v == NULL else vs
            if vs is None or len(vs) != 2:
                raise AnalysisBroken("hash_table_iter_next: unexpected result %r" % v)
            if i < len(model):
                got.append((repr(vs[0]), repr(vs[1])))
            elif vs != [NULL, NULL]:
                G.no("iterate", "past the end it gives %r" % vs); return
        want = sorted((repr(key(k)), repr(v)) for k, v in model.values())
        G.judge("iterate", None, sorted(got) == want, "gives %s instead of %s" % (sorted(got), want))

    def free(self, path, t, model, free):
        W, G = self.W, self.G
        _, q, bad = W.run(path, "hash_table_free", t)
        if q is None:
            G.no("free", "ends the process"); return
        want = sorted([("kfree", repr(key(k))) for k, v in model.values()] + [("vfree", repr(v)) for k, v in model.values()]) \
            if free else []
        leaked = W.canon(q, [], {})[2]
        G.judge("free", bad, not leaked and W.gave(q) == want,
                "leaves memory allocated" if leaked else "hands %s to the free functions instead of %s" % (W.gave(q), want))

    def insert(self, path, t, model, k, free, fail=None):
        """-> (path, model) or None"""
        W, G = self.W, self.G
        cl = W.cls[k]
        W.fail = fail
        try:
            v, q, bad = W.run(path, "hash_table_insert", t, key(k), NEWV)
            n = W.nalloc
        finally:
            W.fail = None
        if fail and n < fail:
            return None
        if q is None:
            G.no("insert", "ends the process"); return None
        if is0(v):
            G.judge("insert", bad, fail is not None and not W.gave(q),
                    "refuses a key with memory available" if fail is None else "refuses a key but frees %s" % W.gave(q))
            return (q, model) if not bad else None
        want = sorted([("kfree", repr(key(model[cl][0]))), ("vfree", repr(model[cl][1]))]) if free and cl in model else []
        G.judge("insert", bad, W.gave(q) == want, "hands %s to the free functions instead of %s" % (W.gave(q), want))
        m = dict(model); m[cl] = (k, NEWV)
        return (q, m) if not bad else None

    def remove(self, path, t, model, k, free):
        W, G = self.W, self.G
        cl = W.cls[k]
        v, q, bad = W.run(path, "hash_table_remove", t, key(k))
        if q is None:
            G.no("remove", "ends the process"); return None
        want = sorted([("kfree", repr(key(model[cl][0]))), ("vfree", repr(model[cl][1]))]) if free and cl in model else []
        G.judge("remove", bad, truth(v) == (cl in model) and W.gave(q) == want,
                "returns %r for a key that is %s, freeing %s" % (v, "there" if cl in model else "not there", W.gave(q)))
        m = dict(model); m.pop(cl, None)
        return (q, m) if not bad else None


def hash_table(P, chk, thorough, G):
    W = World(P, chk, G.where)
    T = Table(W, G)
    for free in (True, False):
        for hs in HASHES if (free or thorough) else HASHES[:2]:
            W.cls = CLASS; W.hash = dict(enumerate(hs))
            t, p = T.new(free)
            if t is None or t == NULL:
                continue
            p, kk, leaked, (t,), _ = rebuild(W, p, [t], {})
            st = [(p, t, {})]; seen = set()
            while st:
                if G.enough():
                    break
                p, t, m = st.pop()
                T.content(p, t, m)
                T.free(p, t, m, free)
                nxt = []
                for k in CLASS:
                    if free and W.cls[k] in m and m[W.cls[k]][0] == k:
                        continue            # the stored key itself: the caller would hand over memory that is freed
                    nxt.append(("insert", T.insert(p, t, m, k, free)))
                    nxt.append(("insert", T.insert(p, t, m, k, free, 1)))
                for k in ("a", "b'", "d"):
                    nxt.append(("remove", T.remove(p, t, m, k, free)))
                for op, r in nxt:
                    if r is None:
                        continue
                    q, kk, leaked, (t2,), m2 = rebuild(W, r[0], [t], r[1])
                    if leaked:
                        G.no(op, "leaves memory behind nobody can reach"); continue
                    kk = (kk, tuple(sorted((a, b[0]) for a, b in m2.items())))
                    if kk not in seen:
                        seen.add(kk)
                        if len(seen) > 4000:
                            raise AnalysisBroken("more than 4000 shapes")
                        st.append((q, t2, m2))
            chk.count("shapes", len(seen))
    # growth: many keys
    for label, h in (("spread", lambda i: i * 7 + 1), ("colliding", lambda i: (i % 9) * 193 + (i % 2)), ("high", lambda i: 0xFFFFFFFF - 3 * i)):
        N = 400 if thorough else 140
        W.cls = {i: i for i in range(N)}; W.hash = {i: h(i) for i in range(N)}
        t, p = T.new(False)
        m = {}
        for i in range(N):
            if i % 5 == 0 or 60 <= i <= 70 or 125 <= i <= 135:
                # a growth that finds no memory loses nothing
                r = T.insert(p, t, m, i, False, 1)
                if r is None:
                    G.no("insert", "without memory for growth, at %d entries" % i)
                else:
                    T.content(r[0], t, m, False, [0, i // 2, i])
            r = T.insert(p, t, m, i, False)
            if r is None:
                break
            p, m = r
            m = {k: (a, Poly.a(("value", a))) for k, (a, b) in m.items()}
            p.mem = {k: (v.subst(lambda a: Poly.a(("value", i)) if a == ("value", "new") else None)
                         if any(isinstance(a, tuple) and a[0] == "value" for a in v.atoms()) else v) for k, v in p.mem.items()}
            p.nreg += 1
            if i in (0, 30, 63, 64, 65, 66, 67, 128, 129, 130, 131, 132, 256, 257, 258, 259, N - 1):
                T.content(p, t, m, True, list(range(0, N, 3)) + [i])
        for k in (0, 1, N // 2, N - 1):
            r = T.remove(p, t, m, k, False)
            if r is None:
                break
            p, m = r
        T.content(p, t, m, True, range(N))
        T.free(p, t, m, False)


class SetT:
    def __init__(self, W, G):
        self.W = W; self.G = G

    def new(self, free=True):
        W = self.W
        t, p, bad = W.run(Path(), "set_new", FP["hash"], FP["equal"])
        self.G.judge("new", bad, t is not None and t != NULL, "gives no set")
        if free and p is not None:
            _, p, bad = W.run(p, "set_register_free_function", t, FP["vfree"])
        for k in (1, 2, 3):
            W.fail = k
            v1, p1, bad1 = W.run(Path(), "set_new", FP["hash"], FP["equal"])
            n = W.nalloc; W.fail = None
            if n >= k and p1 is not None:
                self.G.judge("new without memory", bad1, v1 == NULL and not W.canon(p1, [], {})[2],
                             "returns %r or leaves memory behind" % v1)
        return t, p

    def members(self, path, t, op):
        """what the set holds, by iteration; None after a complaint"""
        W, G = self.W, self.G
        it = Poly.a(("reg", ("obj", "iter")))
        _, q, bad = W.run(path, "set_iterate", t, it)
        got = []
        for i in range(1000):
            if bad or q is None:
                G.no(op, bad or "ends the process"); return None
            v, q, bad = W.run(q, "set_iter_has_more", it)
            if bad or q is None:
                G.no(op, bad or "ends the process"); return None
            if not truth(v):
                v, q, bad = W.run(q, "set_iter_next", it)
                G.judge("iterate", bad, v == NULL, "past the end it gives %r" % v)
                return sorted(got)
            v, q, bad = W.run(q, "set_iter_next", it)
            got.append(repr(v))
        G.no(op, "iteration does not end")
        return None

    def content(self, path, t, model, keys, full=True):
        W, G = self.W, self.G
        v, q, bad = W.run(path, "set_num_entries", t)
        G.judge("num_entries", bad, v == c(len(model)), "%r instead of %d" % (v, len(model)))
        for k in keys:
            v, q, bad = W.run(path, "set_query", t, key(k))
            G.judge("query", bad, truth(v) == (W.cls[k] in model), "says %r about a member of %d" % (v, len(model)))
        if not full:
            return
        want = sorted(repr(key(k)) for k in model.values())
        got = self.members(path, t, "iterate")
        if got is not None:
            G.judge("iterate", None, got == want, "gives %s instead of %s" % (got, want))
        v, q, bad = W.run(path, "set_to_array", t)
        if bad or q is None or v == NULL:
            G.no("to_array", bad or "gives no array")
        else:
            got = sorted(repr(W.I.load(v + c(8 * i), q)) for i in range(len(model)))
            sz = q.size.get(Interp.split(v)[0])
            G.judge("to_array", None, got == want and sz is not None and sz >= 8 * len(model), "gives %s instead of %s" % (got, want))

    def free(self, path, t, model, free):
        W, G = self.W, self.G
        _, q, bad = W.run(path, "set_free", t)
        if q is None:
            G.no("free", "ends the process"); return
        want = sorted(("vfree", repr(key(k))) for k in model.values()) if free else []
        leaked = W.canon(q, [], {})[2]
        G.judge("free", bad, not leaked and W.gave(q) == want,
                "leaves memory allocated" if leaked else "hands %s to the free function instead of %s" % (W.gave(q), want))

    def insert(self, path, t, model, k, fail=None):
        W, G = self.W, self.G
        W.fail = fail
        try:
            v, q, bad = W.run(path, "set_insert", t, key(k))
            n = W.nalloc
        finally:
            W.fail = None
        if fail and n < fail:
            return None
        if q is None:
            G.no("insert", "ends the process"); return None
        m = dict(model)
        new = W.cls[k] not in m
        if fail is None:
            G.judge("insert", bad, truth(v) == new and not W.gave(q), "returns %r for a value that is %sthere" % (v, "not " if new else ""))
            if new:
                m[W.cls[k]] = k
        else:
            G.judge("insert", bad, not W.gave(q), "frees something")
            if truth(v) and new:
                m[W.cls[k]] = k
        return (q, m) if not bad else None

    def remove(self, path, t, model, k, free):
        W, G = self.W, self.G
        v, q, bad = W.run(path, "set_remove", t, key(k))
        if q is None:
            G.no("remove", "ends the process"); return None
        cl = W.cls[k]
        want = [("vfree", repr(key(model[cl])))] if free and cl in model else []
        G.judge("remove", bad, truth(v) == (cl in model) and W.gave(q) == want,
                "returns %r for a value that is %s, freeing %s" % (v, "there" if cl in model else "not there", W.gave(q)))
        m = dict(model); m.pop(cl, None)
        return (q, m) if not bad else None


def sets(P, chk, thorough, G):
    W = World(P, chk, "set")
    T = SetT(W, G)
    for free in (True, False):
        for hs in HASHES if (free or thorough) else HASHES[:2]:
            W.cls = CLASS; W.hash = dict(enumerate(hs))
            t, p = T.new(free)
            if t is None or t == NULL:
                continue
            p, kk, leaked, (t,) = W.canon(p, [t], {})
            st = [(p, t, {})]; seen = set()
            while st:
                if G.enough():
                    break
                p, t, m = st.pop()
                T.content(p, t, m, list(CLASS))
                T.free(p, t, m, free)
                nxt = []
                for k in CLASS:
                    nxt.append(("insert", T.insert(p, t, m, k)))
                    nxt.append(("insert", T.insert(p, t, m, k, 1)))
                for k in ("a", "b'", "d"):
                    nxt.append(("remove", T.remove(p, t, m, k, free)))
                for op, r in nxt:
                    if r is None:
                        continue
                    q, kk, leaked, (t2,) = W.canon(r[0], [t], {})
                    if leaked:
                        G.no(op, "leaves memory behind nobody can reach"); continue
                    kk = (kk, tuple(sorted(r[1].items())))
                    if kk not in seen:
                        seen.add(kk)
                        st.append((q, t2, r[1]))
            chk.count("shapes", len(seen))
    # two sets
    first = {0: "a", 1: "b", 2: "d", 3: "e"}
    second = {0: "a'", 1: "b'", 2: "d", 3: "e"}
    for hs in [h + (x,) for h, x in zip(HASHES, (0, 5, 193, 0, 1))][:: 1 if thorough else 2]:
        W.cls = dict(CLASS, e=3); W.hash = dict(enumerate(hs))
        for A in itertools.product((0, 1), repeat=4):
            for B in itertools.product((0, 1), repeat=4):
                p = Path()
                ts = []
                for which, names in ((A, first), (B, second)):
                    t, p, bad = W.run(p, "set_new", FP["hash"], FP["equal"])
                    for i in range(4):
                        if which[i] and p is not None and not bad:
                            _, p, bad = W.run(p, "set_insert", t, key(names[i]))
                    ts.append(t)
                    if p is None or bad:
                        break
                if p is None or bad:
                    G.no("insert", bad or "ends the process"); continue
                p, _, _, ts = W.canon(p, ts, {})
                for fn, want in (("set_union", {i for i in range(4) if A[i] or B[i]}), ("set_intersection", {i for i in range(4) if A[i] and B[i]})):
                    for fail in (None, 1, 2, 3, 4):
                        if fail and (A, B) not in (((1, 0, 1, 0), (1, 1, 1, 0)), ((1, 1, 0, 1), (1, 0, 1, 1))):
                            continue
                        W.fail = fail
                        v, q, bad = W.run(p, fn, ts[0], ts[1])
                        n = W.nalloc; W.fail = None
                        if fail and n < fail:
                            continue
                        if q is None or bad:
                            G.no(fn, bad or "ends the process"); continue
                        if fail:
                            G.judge(fn + " without memory", None, v == NULL and not W.canon(q, ts, {})[2] and not W.gave(q),
                                    "returns %r or leaves memory behind" % v)
                            continue
                        got = T.members(q, v, fn)
                        if got is None:
                            continue
                        cl = sorted(W.cls[k] for k in W.cls for g in got if repr(key(k)) == g)
                        v2, _, bad = W.run(q, "set_num_entries", v)
                        G.judge(fn, bad, cl == sorted(want) and v2 == c(len(want)), "of %s and %s gives %s" % (A, B, got))
                        for tt, which, names in ((ts[0], A, first), (ts[1], B, second)):
                            g2 = T.members(q, tt, fn)
                            G.judge(fn, None, g2 == sorted(repr(key(names[i])) for i in range(4) if which[i]),
                                    "changes one of its arguments")
    for label, h in (("spread", lambda i: i * 7 + 1), ("colliding", lambda i: (i % 9) * 193 + (i % 2))):
        N = 400 if thorough else 140
        W.cls = {i: i for i in range(N)}; W.hash = {i: h(i) for i in range(N)}
        t, p = T.new(False)
        m = {}
        for i in range(N):
            if i % 5 == 0 or 60 <= i <= 70 or 125 <= i <= 135:
                r = T.insert(p, t, m, i, 1)
                if r is None:
                    G.no("insert", "without memory for growth, at %d members" % i)
                else:
                    T.content(r[0], t, r[1], [0, i // 2, i], False)
            r = T.insert(p, t, m, i)
            if r is None:
                break
            p, m = r
            if i in (0, 30, 63, 64, 65, 66, 67, 128, 129, 130, 131, 132, 256, 257, 258, 259, N - 1):
                T.content(p, t, m, list(range(0, N, 3)) + [i])
        for k in (0, 1, N // 2, N - 1):
            r = T.remove(p, t, m, k, False)
            if r is None:
                break
            p, m = r
        T.content(p, t, m, range(N))
        T.free(p, t, m, False)


# ------------------------------------------------------------------ keys: equality, order and hash agree
def keyfuncs(P, chk, thorough, G):

    def runfn(fn, args, path, str_model=None):
        def ext(f, a, p, x):
            if f == "tolower":
                return Poly.a(("lower", a[0].key())) if a[0].const() is None else \
                    c(a[0].const() + 32 if 65 <= a[0].const() <= 90 else a[0].const())
            if f == "strcmp":
                return str_model(a[0], a[1])
            if f == "frexp":
                I.store(a[1], Poly.a(("exp", a[0].key())), p)
                return Poly.a(("frac", a[0].key()))
            if f in ("fabs", "llvm.fabs.f64"):
                d = a[0].const()
                return c(abs(d)) if d is not None else Poly.a(("abs", a[0].key()))
            return None
        I = KI(P, ext=ext, no_summary=True, max_paths=200, max_steps=20000)
        I.narrow = True
        f = P.fns.get(fn)
        if f is None:
            raise AnalysisBroken("%s not found" % fn)
        return I.run(f, args, path)

    def same(facts, x, y):
        """does the partition's knowledge make x and y the same number?"""
        for (core, k), t in facts.items():
            if core == "eq" and t or core == "ne" and not t:
                p = Poly(dict(k))
                if p == x - y or p == y - x:
                    return True
        return False
    X, Y = Poly.a(("reg", ("obj", "x"))), Poly.a(("reg", ("obj", "y")))
    kx, ky = Poly.a(("in", "x")), Poly.a(("in", "y"))

    def cells():
        p = Path()
        p.mem[(("reg", ("obj", "x")), 0)] = kx
        p.mem[(("reg", ("obj", "y")), 0)] = ky
        return p
    for eq, hs in (("int_equal", "int_hash"), ("ui64_equal", "ui64_hash"), ("pointer_equal", "pointer_hash"),
                   ("pdc_default_integer_equal_func", "pdc_default_integer_hash_func"),
                   ("pdc_default_long_equal_func", "pdc_default_long_hash_func"),
                   ("pdc_default_uint64_equal_func", "pdc_default_uint64_hash_func"),
                   ("pdc_default_double_equal_func", "pdc_default_double_hash_func")):
        ptr = eq.startswith("pointer")
        a, b = (kx, ky) if ptr else (X, Y)
        for v, p in runfn(eq, [a, b], cells()):
            if v.const() is None:
                raise AnalysisBroken("%s: undecided result" % eq)
            if v.const():
                ok = same(p.facts, kx, ky)
                G.judge(eq, None, ok, "calls two keys equal without their values being the same, so %s may put them apart" % hs)
            else:
                G.judge(eq, None, any((core == "eq" and t is False or core == "ne" and t is True) and
                                      Poly(dict(k)) in (kx - ky, ky - kx) for (core, k), t in p.facts.items()),
                        "calls two keys different without their values being different")
        same_val = cells(); same_val.mem[(("reg", ("obj", "y")), 0)] = kx
        ha = {(repr(sorted(p.facts.items(), key=repr)), repr(v)) for v, p in runfn(hs, [kx if ptr else X], cells())}
        hb = {(repr(sorted(p.facts.items(), key=repr)), repr(v)) for v, p in runfn(hs, [kx if ptr else Y], same_val)}
        G.judge(hs, None, ha == hb, "equal keys hash differently")
    for cmp, eq in (("int_compare", "int_equal"), ("ui64_compare", "ui64_equal"), ("pointer_compare", "pointer_equal")):
        ptr = cmp.startswith("pointer")
        for lo, hi in ((1, 2), (2, 1), (3, 3), (-5, 4), (4, -5), (0, (1 << 62)), ((1 << 62), 0)):
            if cmp != "int_compare" and min(lo, hi) < 0 or cmp == "int_compare" and max(lo, hi) > 1 << 40:
                continue
            p = cells()
            p.mem[(("reg", ("obj", "x")), 0)] = c(lo); p.mem[(("reg", ("obj", "y")), 0)] = c(hi)
            (v, q), = runfn(cmp, [c(lo), c(hi)] if ptr else [X, Y], p)
            s = v.const()
            G.judge(cmp, None, s is not None and (s > 0) == (lo > hi) and (s < 0) == (lo < hi), "orders %d and %d as %r" % (lo, hi, v))
    # strings: bounded lengths, symbolic bytes
    def string(path, name, chars):
        r = ("reg", ("obj", name))
        for i, ch in enumerate(chars + [NULL]):
            path.mem[(r, i)] = ch
        path.size[r] = len(chars) + 1
        return Poly.a(r)
    for eq, hs, fold in (("string_equal", "string_hash", False), ("string_nocase_equal", "string_nocase_hash", True),
                         ("pdc_default_string_equal_func", "pdc_default_string_hash_func", False)):
        for a, b in itertools.product(("", "a", "A", "b", "ab", "aB", "AB", "ba", "abc"), repeat=2):
            p = Path()
            A = string(p, "s1", [c(ord(ch)) for ch in a]); B = string(p, "s2", [c(ord(ch)) for ch in b])
            sm = lambda x, y: c((a > b) - (a < b)) if x == A and y == B else c((b > a) - (b < a)) if x == B and y == A else c(0)
            want = (a.lower() == b.lower()) if fold else a == b
            for v, q in runfn(eq, [A, B], p, sm):
                bad = next((("reads past the end of a string") for e in q.events if e[0] == "oob"), None)
                G.judge(eq, bad, truth(v) == want, "%r and %r give %r" % (a, b, v))
            ha = [v for v, q in runfn(hs, [A], p)]; hb = [v for v, q in runfn(hs, [B], p)]
            if want:
                G.judge(hs, None, ha == hb and len(ha) == 1, "%r and %r are equal but hash differently" % (a, b))
            if not eq.startswith("pdc_default"):
                cmp = eq.replace("_equal", "_compare")
                la, lb = (a.lower(), b.lower()) if fold else (a, b)
                for v, q in runfn(cmp, [A, B], p, sm):
                    s = v.const()
                    G.judge(cmp, None, s is not None and (s > 0) == (la > lb) and (s < 0) == (la < lb), "%r and %r give %r" % (a, b, v))


PARTS = [("deque", "commons", None, deque), ("stack", "commons", None, stack), ("vector", "commons", None, vector),
         ("hash table", "commons", None, hash_table), ("server hash table", "server", ["/pdc_hash-table.c"], hash_table),
         ("set", "commons", None, sets), ("keys", "commons", None, keyfuncs)]


class Sink:
    """collects what a part finds, in a process of its own"""

    def __init__(self):
        self.counts = {}; self.obl = []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def oblige(self, *a):
        self.obl.append(a)


def part(a):
    name, config, only, fn, th = a
    chk = Sink(); broken = None
    try:
        with Group(chk, name) as G:
            fn(ir.program(config, only=only) if only else ir.program(config), chk, th, G)
    except AnalysisBroken as e:
        broken = str(e)
    except Exception:
        broken = traceback.format_exc()
    return name, chk.counts, chk.obl, broken


def run():
    chk = Check(PID, "every container operation agrees with its abstract value from every heap shape reachable within the bound")
    th = chk.tier == "thorough"
    ir.program("commons")
    chk.analysed = {"parts": [p[0] for p in PARTS]}
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(part, [p + (th,) for p in PARTS], chunksize=1)
    for name, counts, obl, broken in res:
        for k, v in counts.items():
            chk.count(k, v)
        for o in obl:
            chk.oblige(*o)
        if broken:
            chk.broken.append("%s: %s" % (name, broken))
    chk.assumptions += ["at most 34 elements in a deque, 70 in a stack, 110 in a vector; maps and sets: every shape over three keys, "
                        "and growth to 140 keys", "integer arithmetic on sizes does not overflow"]
    chk.floor("steps", 20000); chk.floor("shapes", 2000); chk.floor("obligations", 70)
    return chk.finish("Each operation was abstractly interpreted from every canonical heap shape reachable within the bound, with "
                      "and without a failing allocation, and compared with the abstract value of the container.")
