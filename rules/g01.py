"""G01: a histogram counts every element of the data it is made of exactly once, in a bin that covers it, and spans them all; a merged
histogram keeps every count.  The histogram package is abstractly interpreted: data are sequences of exact numbers, one for each way
elements can lie among the bins (alone, equal, on an edge, beside it, outside what was sampled, ...), and the choice of the sample is
the environment's.  Each result is compared with the counts its own bin edges call for."""
import itertools
from fractions import Fraction as Fr
import ir
from k01 import World, Group
from report import Check
from absint import Path
from sym import Poly
from frontend import AnalysisBroken

PID = "G01"
c = Poly.c
NULL = c(0)
HIST = "pdc_histogram_t"
SIZE = {"PDC_INT": 4, "PDC_UINT": 4, "PDC_INT64": 8, "PDC_UINT64": 8, "PDC_FLOAT": 4, "PDC_DOUBLE": 8}
IRTY = {"PDC_INT": "i32", "PDC_UINT": "i32", "PDC_INT64": "i64", "PDC_UINT64": "i64", "PDC_FLOAT": "float", "PDC_DOUBLE": "double"}
QUIET = ("fflush", "printf", "fprintf", "puts", "putchar", "gettimeofday", "assert")


def num(x):
    x = Fr(x)
    return c(int(x)) if x.denominator == 1 else c(x)


def show(xs):
    t = ["%s" % (float(x) if Fr(x).denominator > 1 else int(x)) for x in xs]
    return "{%s}" % (", ".join(t) if len(t) <= 6 else ", ".join(t[:4]) + ", ... %s, %d elements" % (t[-1], len(t)))


class Hist:
    """what a histogram in memory says"""
    def __init__(self, dtype, nbin, incr, rng, bins):
        self.dtype = dtype; self.nbin = nbin; self.incr = incr; self.rng = rng; self.bins = bins

    def key(self):
        return self.dtype, self.nbin, self.incr, tuple(self.rng), tuple(self.bins)


class GW(World):
    def __init__(self, P):
        World.__init__(self, P, None, "histogram")
        self.I.max_steps = 400000
        e = P.enums
        self.type = {t: next(v[t] for v in e.values() if t in v) for t in SIZE} if e and isinstance(next(iter(e.values())), dict) else {t: e[t] for t in SIZE}
        self.picks = (1,)
        self.of = {}
        self.null = None
        base = self.I.load; arith = self.I.arith; W = self

        def load(p, path, ty=None):
            if p.const() is not None and W.null is None:
                W.null = "%s: reads through a null pointer" % W.loc(W.I.here)
            r = W.I.split(p)[0]
            want = W.of.get(r)
            if want and ty in ("i8", "i16", "i32", "i64", "float", "double") and ty != want and W.null is None:
                W.null = "%s: takes elements for another type" % W.loc(W.I.here)
            o = W.I.split(p)[1].const()
            if W.null is None and o is not None and r in path.size and isinstance(path.size[r], int) and not 0 <= o < path.size[r]:
                W.null = "%s: reads outside the memory it was given" % W.loc(W.I.here)
            if W.null is None and ty == "double" and r is not None and o is not None and isinstance(r[1], tuple) and r[1][0] == "stk" and (r, o) not in path.mem and r not in path.zero and r not in path.dirty:
                W.null = "%s: reads memory that was never set" % W.loc(W.I.here)
            return base(p, path, ty)

        def exact(op, a, b, x):
            if op == "fdiv":
                m, n = a.const(), b.const()
                if n == 0:
                    W.null = W.null or "%s: divides by a width of zero" % W.loc(x)
                    return Poly.a(("div0",))
                if m is not None and n is not None:
                    return num(Fr(m) / Fr(n))
            return arith(op, a, b, x)
        self.I.load = load; self.I.arith = exact

    def ext(self, f, args, path, x):
        if f in QUIET:
            return NULL
        if f == "rand":
            st = dict(path.extra or {}); n = st.get("picked", 0)
            path.extra = dict(st, picked=n + 1)
            return c(self.picks[n % len(self.picks)])
        k = args[0].const() if args else None
        if f in ("ceil", "llvm.ceil.f64", "floor", "llvm.floor.f64", "fabs", "llvm.fabs.f64", "trunc", "llvm.trunc.f64", "round", "llvm.round.f64", "rint", "llvm.rint.f64") and k is not None:
            k = Fr(k)
            g = f.replace("llvm.", "").replace(".f64", "")
            fl = k.numerator // k.denominator
            return num({"ceil": -((-k.numerator) // k.denominator), "floor": fl, "fabs": abs(k), "trunc": int(k), "round": int(k + (Fr(1, 2) if k >= 0 else Fr(-1, 2))), "rint": round(k)}[g])
        if f in ("fmin", "fmax", "llvm.minnum.f64", "llvm.maxnum.f64") and k is not None and args[1].const() is not None:
            return num((min if "min" in f else max)(Fr(k), Fr(args[1].const())))
        if f in ("exp2", "ldexp", "scalbn", "llvm.exp2.f64", "llvm.ldexp.f64.i32") and k is not None:
            e = k if "exp2" in f else args[1].const()
            if e is not None and Fr(e).denominator == 1:
                return num((Fr(2) ** int(e)) * (1 if "exp2" in f else Fr(k)))
        if f in ("llvm.fmuladd.f64", "llvm.fma.f64", "fma") and all(a.const() is not None for a in args[:3]):
            return num(Fr(k) * Fr(args[1].const()) + Fr(args[2].const()))
        if f in ("log2", "llvm.log2.f64", "logb") and k is not None and k > 0:
            n = 0; k = Fr(k)
            while k >= 2:
                k /= 2; n += 1
            while k < 1:
                k *= 2; n -= 1
            return num(n if k == 1 or f == "logb" else n + Fr(1, 2))      # between two powers of two: only its whole part is used
        if f in ("pow", "llvm.pow.f64") and k is not None and args[1].const() is not None and Fr(args[1].const()).denominator == 1 and k != 0:
            return num(Fr(k) ** int(args[1].const()))
        return World.ext(self, f, args, path, x)

    def do(self, path, fn, *args):
        self.null = None
        try:
            v, q, bad = self.run(path, fn, *args)
        except AnalysisBroken:
            if self.null:
                return None, path, self.null
            raise
        if q is None:
            return None, path, self.null or "%s ends the program" % fn
        for e in q.events:
            if e[0] == "uninit":
                bad = bad or "%s: reads memory that was never set" % self.loc(e[3])
        return v, q, self.null or bad

    # ---- memory
    def data(self, path, name, dtype, xs):
        r = ("reg", ("arg", name))
        n = SIZE[dtype]
        self.of[r] = IRTY[dtype]
        path.size[r] = n * len(xs)
        for i, x in enumerate(xs):
            path.mem[(r, n * i)] = num(x)
        return Poly.a(r)

    def out(self, path, name, size):
        r = ("reg", ("arg", name))
        path.size[r] = size
        return Poly.a(r)

    def get(self, path, p):
        """-> Hist or a complaint"""
        F = self.L.fields(HIST)
        q = path.copy(); q.events = []
        rd = lambda a, ty: self.I.load(a, q, ty)
        f = {k: rd(p + c(F[k][0]), None) for k in ("dtype", "nbin", "incr", "range", "bin")}
        if any(f[k].const() is None for k in ("dtype", "nbin", "incr")):
            return "leaves a part of the histogram unset"
        n = f["nbin"].const()
        if Fr(n).denominator != 1 or not 0 < n < 4096:
            return "makes a histogram of %s bins" % n
        rng = [rd(f["range"] + c(8 * i), "double").const() for i in range(2 * n)]
        bins = [rd(f["bin"] + c(8 * i), "i64").const() for i in range(n)]
        if any(x is None for x in rng) or any(x is None for x in bins) or any(e[0] in ("oob", "uninit", "uaf") for e in q.events):
            return "leaves a part of the histogram unset"
        return Hist(f["dtype"].const(), n, f["incr"].const(), rng, bins)

    def put(self, path, name, h):
        r = ("reg", ("arg", name)); a, b = ("reg", ("arg", name + ".range")), ("reg", ("arg", name + ".bin"))
        path.size[r] = self.P.structs[HIST]["size"]; path.size[a] = 16 * h.nbin; path.size[b] = 8 * h.nbin
        self.L.put(path, ("arg", name), HIST, dtype=c(h.dtype), nbin=c(h.nbin), incr=num(h.incr), range=Poly.a(a), bin=Poly.a(b))
        for i, x in enumerate(h.rng):
            path.mem[(a, 8 * i)] = num(x)
        for i, x in enumerate(h.bins):
            path.mem[(b, 8 * i)] = num(x)
        return Poly.a(r)


def shape(h):
    for i in range(h.nbin):
        if h.rng[2 * i] > h.rng[2 * i + 1]:
            return "bin %d begins above its end" % i
        if i and h.rng[2 * i] != h.rng[2 * i - 1]:
            return "bin %d does not begin where the bin before it ends (%s, %s)" % (i, float(h.rng[2 * i]), float(h.rng[2 * i - 1]))
    return None


def counts(h, xs):
    bad = shape(h)
    if bad:
        return bad
    if h.rng[0] > min(xs) or h.rng[-1] < max(xs):
        return "the histogram spans %s to %s, its data %s to %s" % (float(h.rng[0]), float(h.rng[-1]), float(min(xs)), float(max(xs)))
    if sum(h.bins) != len(xs):
        return "the bins count %d of %d elements" % (sum(h.bins), len(xs))
    for i in range(h.nbin):
        lo, hi = h.rng[2 * i], h.rng[2 * i + 1]
        n = sum(1 for x in xs if lo <= x and (x < hi or (i == h.nbin - 1 and x <= hi)))
        if n != h.bins[i]:
            return "bin [%s, %s) counts %d elements, and %d lie in it" % (float(lo), float(hi), h.bins[i], n)
    return None


def sets(dtype, th):
    """data, by how they lie"""
    f = Fr(1, 64)
    yield "one element", [7]
    yield "one element, zero", [0]
    yield "equal elements", [3] * 25
    yield "equal elements, zero", [0] * 12
    yield "two values", [2, 9]
    yield "two values, larger first", [9, 2] * 12
    yield "every whole number", list(range(0, 64))
    yield "downward", list(range(70, 5, -1))
    yield "wide", [0, 1000] + [i * 37 % 1001 for i in range(40)]
    yield "wide, off the grid", [5, 1217] + [(i * 53) % 1213 + 5 for i in range(45)]
    yield "far apart", [1, 1 << 20, 5, 1 << 19, (1 << 20) - 1] * 5
    yield "edges of a power of two", [16 * i for i in range(0, 50)] + [16 * i - 1 for i in range(1, 50)] + [16 * i + 1 for i in range(49)]
    yield "outliers the sample misses", [50 + i % 3 for i in range(40)] + [0, 500, 3, 499]
    yield "outliers first", [500, 0] + [100 + i for i in range(40)]
    if "U" in dtype:
        yield "in the upper half", [(1 << (8 * SIZE[dtype] - 1)) + 4096 * i for i in range(-8, 30)]
    if "U" not in dtype:
        yield "below zero", [-i for i in range(1, 60)]
        yield "around zero", [i - 30 for i in range(61)]
        yield "negative constants", [-4] * 22
    if dtype in ("PDC_FLOAT", "PDC_DOUBLE"):
        yield "fractions", [Fr(i, 8) for i in range(50)]
        yield "small fractions", [Fr(i, 1024) for i in range(3, 80)]
        yield "just below and above whole numbers", [1 - f, 50 + f] + [i + d for i in range(1, 50) for d in (-f, 0, f, Fr(1, 2))]
        yield "just inside the outer bins", [Fr(63, 64), Fr(3201, 64)] + [Fr(i, 2) for i in range(2, 101)]
        yield "negative fractions", [-Fr(i, 16) for i in range(40)]
        yield "constant fraction", [Fr(5, 8)] * 21
        yield "huge and tiny", [Fr(1, 1024), 1 << 20] * 11


PICKS = {"next": (1,), "none": (0,), "scattered": (7919, 104729, 3, 15485863), "from the back": (1 << 30, 41, 2), "around": ("n", 1, "n", 2)}


def making(G, W, th):
    for dtype in SIZE:
        for (name, xs), (pn, picks) in itertools.product(list(sets(dtype, th)), list(PICKS.items())):
            if not th and pn != "next" and len(xs) < 20:
                continue
            W.picks = tuple(len(xs) if k == "n" else k for k in picks)
            p = Path(); p.extra = {}
            d = W.data(p, "data", dtype, xs)
            v, q, bad = W.do(p, "PDC_gen_hist", c(W.type[dtype]), c(len(xs)), d)
            what = "%s %s%s, sampled %s" % (dtype[4:].lower(), name, show(xs) if len(xs) < 3 else "", pn)
            if not bad and v == NULL:
                bad = "no histogram is made"
            h = None if bad else W.get(q, v)
            if isinstance(h, str):
                bad = h
            if not bad and h.dtype != W.type[dtype]:
                bad = "the histogram's type is not its data's"
            if not bad:
                bad = counts(h, xs)
            G.judge("making one", bad, True, what)
            if bad:
                continue
            if any(q.mem.get((("reg", ("arg", "data")), SIZE[dtype] * i)) != num(x) for i, x in enumerate(xs)):
                G.judge("making one", "the data are changed", True, what)
            # more data, then free
            more = [x + d for x in xs[:6] for d in (0, 1)] + [max(xs) + 3, 0]
            W_bad(W, G, q, v, dtype, xs, more, what)
            if pn == "next":
                u, q2, bad = W.do(q, "PDC_free_hist", v)
                left = [r for r in q2.size if r[1][0] == "heap" and r not in q2.freed] if not bad else []
                G.judge("freeing one", bad or ("leaves memory behind" if left else None), True, what)
    for dtype in ("PDC_INT", "PDC_DOUBLE"):
        p = Path(); p.extra = {}
        v, q, bad = W.do(p, "PDC_gen_hist", c(W.type[dtype]), NULL, W.data(p, "data", dtype, [1]))
        G.judge("making one of nothing", bad, v == NULL, "no elements: a histogram is made")
        v, q, bad = W.do(p, "PDC_gen_hist", c(W.type[dtype]), c(4), NULL)
        G.judge("making one of nothing", bad, v == NULL, "no data: a histogram is made")


def W_bad(W, G, q, v, dtype, xs, more, what):
    d = W.data(q, "more", dtype, more)
    u, q2, bad = W.do(q, "PDC_hist_incr_all", v, c(W.type[dtype]), c(len(more)), d)
    h = None if bad else W.get(q2, v)
    if isinstance(h, str):
        bad = h
    if not bad:
        bad = "fails" if u.const() is None or u.const() < 0 else counts(h, list(xs) + more)
    G.judge("counting more", bad, True, what)
    return q2


def bounds(th):
    f = Fr(1, 16)
    for lo in (0, 1, f, 1 - f, Fr(1, 2), -1, -f, -3, 5, Fr(31, 2), 100):
        for w in (0, f, Fr(1, 4), 1, 1 + f, 2, 3, 3 - f, 5, 8, 8 + f, 16, 17, 31, 33, 48, 49, 100, 1000):
            yield lo, lo + w


def setting(G, W, th):
    """a histogram of given bounds, filled with what lies on, beside and outside its edges"""
    for lo, hi in bounds(th):
        for nbin in (4, 5, 8, 50) if th else (4, 7):
            p = Path(); p.extra = {}
            v, q, bad = W.do(p, "PDC_create_hist", c(W.type["PDC_DOUBLE"]), c(nbin), num(lo), num(hi))
            what = "%d bins for %s to %s" % (nbin, float(lo), float(hi))
            if not bad and v == NULL:
                bad = "no histogram is made"
            h = None if bad else W.get(q, v)
            if isinstance(h, str):
                bad = h
            if not bad:
                bad = shape(h) or ("bins are counted before any element is" if sum(h.bins) else None)
            G.judge("setting one up", bad, True, what)
            if bad:
                continue
            e = h.incr / 4 if h.incr else Fr(1, 4)
            xs = sorted({x + d for x in h.rng[:24] + h.rng[-24:] + [lo, hi] for d in (-e, 0, e)})
            if not h.incr:
                xs = xs[::3]
            xs = xs[1::2] + [lo - 50, hi + 50] + xs[::-2] + [lo, hi]
            W_bad(W, G, q, v, "PDC_DOUBLE", [], xs, what)
            W_bad(W, G, q, v, "PDC_DOUBLE", [], [lo, hi], what)
    for lo, hi, nbin in ((1, 0, 10), (5, -5, 4)):
        p = Path(); p.extra = {}
        v, q, bad = W.do(p, "PDC_create_hist", c(W.type["PDC_DOUBLE"]), c(nbin), num(lo), num(hi))
        G.judge("setting one up with bounds that contradict", bad, v == NULL, "%s to %s: a histogram is made" % (lo, hi))


def given(edges, xs, incr, dtype):
    h = Hist(dtype, len(edges) - 1, Fr(incr), [x for i in range(len(edges) - 1) for x in (edges[i], edges[i + 1])], [0] * (len(edges) - 1))
    for x in xs:
        k = 0
        while k < h.nbin - 1 and x >= h.rng[2 * k + 1]:
            k += 1
        h.bins[k] += 1
    return h


def uneven(G, W, th):
    """bins of different widths"""
    for dtype in SIZE:
        for edges in ([0, 1, 3, 4, 8, 20], [2, 5, 6], [0, 10], [1, 2, 4, 8, 16, 32, 64, 65], [0, 0, 5, 5]):
            xs = sorted({max(x + d, 0) for x in edges for d in (-1, 0, 1)}) + [edges[0], edges[-1]] * 2 + [edges[-1] + 9]
            p = Path(); p.extra = {}
            h = W.put(p, "hist", given(edges, [], 0, W.type[dtype]))
            for order, ys in (("upward", xs), ("downward", xs[::-1]), ("mixed", xs[1::2] + xs[::-2])):
                W_bad(W, G, p.copy(), h, dtype, [], ys, "%s, uneven bins %s, elements %s" % (dtype[4:].lower(), edges, order))
            d = W.data(p, "more", dtype, xs)
            for t, n, a, why in ((W.type["PDC_INT" if dtype != "PDC_INT" else "PDC_DOUBLE"], len(xs), d, "of another type"), (W.type[dtype], 0, d, "of no elements"), (W.type[dtype], 3, NULL, "of no data")):
                v, q, bad = W.do(p, "PDC_hist_incr_all", h, c(t), c(n), a)
                g = None if bad else W.get(q, h)
                G.judge("refusing what cannot be counted", bad, bad or (v.const() is not None and v.const() < 0 and not isinstance(g, str) and sum(g.bins) == 0), "%s: counting %s" % (dtype, why))


def merged(r, hs):
    bad = shape(r)
    if bad:
        return bad
    lo, hi = min(h.rng[0] for h in hs), max(h.rng[-1] for h in hs)
    if r.rng[0] > lo or r.rng[-1] < hi:
        return "the merged histogram spans %s to %s, those merged %s to %s" % (float(r.rng[0]), float(r.rng[-1]), float(lo), float(hi))
    if sum(r.bins) != sum(sum(h.bins) for h in hs):
        return "the merged histogram counts %d elements, those merged %d" % (sum(r.bins), sum(sum(h.bins) for h in hs))
    least = [0] * r.nbin
    for h in hs:
        for i, n in enumerate(h.bins):
            ks = [k for k in range(r.nbin) if r.rng[2 * k] <= h.rng[2 * i] and h.rng[2 * i + 1] <= r.rng[2 * k + 1]]
            if len(ks) == 1:
                least[ks[0]] += n
    for k in range(r.nbin):
        if r.bins[k] < least[k]:
            return "bin [%s, %s) counts %d elements, and bins of %d lie in it" % (float(r.rng[2 * k]), float(r.rng[2 * k + 1]), r.bins[k], least[k])
    return None


def merging(G, W, th):
    t = W.type["PDC_DOUBLE"]
    fam = {"fine": given([0, 1, 2, 3, 4, 5], [0, 1, 1, 2, 3, 3, 3, 4], 1, t), "coarse": given([-3, 0, 2, 4, 6, 9], [-2, 0, 1, 3, 4, 5, 7, 8], 2, t), "wide": given([-8, 0, 8, 16], [-7, 1, 2, 9, 15], 8, t),
           "high": given([20, 21, 22, 30], [20, 21, 29, 30], 1, t), "low": given([-40, -30, -29, -28], [-39, -30, -28], 1, t), "same": given([0, 1, 2, 3, 4, 5], [0, 4, 5], 1, t),
           "half": given([Fr(1, 4), Fr(1, 2), 1, Fr(3, 2), Fr(7, 4)], [Fr(1, 4), Fr(1, 2), 1, Fr(5, 4), Fr(7, 4)], Fr(1, 2), t), "point": given([5, 6, 6], [5, 5, 5], 1, t)}
    groups = [(a,) for a in fam] + list(itertools.permutations(fam, 2)) + (list(itertools.permutations(fam, 3)) if th else list(itertools.combinations(fam, 3)))
    for g in groups:
        p = Path(); p.extra = {}
        r = ("reg", ("arg", "all")); p.size[r] = 8 * len(g)
        hs = [fam[a] for a in g]
        ptr = []
        for i, a in enumerate(g):
            ptr.append(W.put(p, a, fam[a])); p.mem[(r, 8 * i)] = ptr[-1]
        v, q, bad = W.do(p, "PDC_merge_hist", c(len(g)), Poly.a(r))
        if not bad and v == NULL:
            bad = "nothing is made"
        m = None if bad else W.get(q, v)
        if isinstance(m, str):
            bad = m
        if not bad and m.dtype != t:
            bad = "the merged histogram has another type"
        if not bad:
            bad = merged(m, hs)
        for x, h in zip(ptr, hs):
            if not bad:
                o = W.get(q, x)
                if isinstance(o, str) or o.key() != h.key():
                    bad = "a histogram that is merged is changed"
        G.judge("merging", bad, True, " with ".join(g))
    p = Path(); p.extra = {}
    r = ("reg", ("arg", "all")); p.size[r] = 16
    p.mem[(r, 0)] = W.put(p, "a", fam["fine"]); p.mem[(r, 8)] = W.put(p, "b", given([0, 1, 2, 3], [1], 1, W.type["PDC_INT"]))
    v, q, bad = W.do(p, "PDC_merge_hist", c(2), Poly.a(r))
    G.judge("merging histograms of two types", bad, v == NULL, "something is made")
    v, q, bad = W.do(p, "PDC_merge_hist", c(0), Poly.a(r))
    G.judge("merging none", bad, v == NULL, "something is made")


def copying(G, W, th):
    for edges in ([0, 1, 2, 3, 4, 5], [0, 10], [1, 2, 4, 8, 16, 32, 64, 65]):
        for incr in (0, 1):
            h = given(edges, edges + [edges[0]] * 2, incr, W.type["PDC_FLOAT"])
            p = Path(); p.extra = {}
            a = W.put(p, "from", h)
            v, q, bad = W.do(p, "PDC_dup_hist", a)
            o = None if bad or v == NULL else W.get(q, v)
            G.judge("duplicating", bad or (o if isinstance(o, str) else None), o is not None and not isinstance(o, str) and o.key() == h.key(), "%s: the copy differs" % edges)
            for old in (None, given(edges, [edges[0]] * 9, 3, 0)):
                q = p.copy()
                if old is None:
                    r = ("reg", ("arg", "to")); q.size[r] = W.P.structs[HIST]["size"]
                    W.L.put(q, ("arg", "to"), HIST, range=NULL, bin=NULL, dtype=c(0), nbin=NULL, incr=NULL)
                    b = Poly.a(r)
                else:
                    b = W.put(q, "to", old)
                v, q, bad = W.do(q, "PDC_copy_hist", b, a)
                o = None if bad else W.get(q, b)
                G.judge("copying", bad or (o if isinstance(o, str) else None), o is not None and not isinstance(o, str) and o.key() == h.key(), "%s: the copy differs" % edges)
                s = None if bad else W.get(q, a)
                G.judge("copying", bad or (s if isinstance(s, str) else None), s is not None and s.key() == h.key(), "%s: the original is changed" % edges)


class Told(Group):
    """each complaint with the case it is about"""
    def judge(self, op, bad, holds, what):
        Group.judge(self, op, "%s: %s" % (what, bad) if bad else None, holds, what)


def run():
    chk = Check(PID, "a histogram counts every element once, in a bin that covers it, and spans them all")
    th = chk.tier == "thorough"
    P = ir.program("server")
    for name, f in (("making", making), ("setting", setting), ("uneven", uneven), ("merging", merging), ("copying", copying)):
        W = GW(P)
        with Told(chk, name) as G:
            f(G, W, th)
        chk.count("calls", W.steps)
    chk.assumptions += ["numbers are exact: what rounding does to an edge or to an element is not followed",
                        "elements are numbers, none of them infinite"]
    chk.floor("obligations", 12)
    chk.floor("steps", 1500)
    return chk.finish("the histogram package over data of every kind of position among the bins, every element type and several samples; each histogram compared with "
                      "the counts its own edges call for")
