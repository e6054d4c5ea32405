"""Order domain: per dimension, a weak order of region end points refined by gap classes (1 or >= 2).
Decides comparisons of linear forms over end points; an undecided comparison splits the partition."""
import itertools
from sym import Poly

INF = None


def weak_orders(items, lt):
    """all weak orders (tuples of frozensets, ascending) of items satisfying lt pairs (a strictly before b)"""
    out = []

    def rec(rest, acc):
        if not rest:
            out.append(tuple(acc)); return
        for r in range(1, len(rest) + 1):
            for c in itertools.combinations(sorted(rest), r):
                cs = frozenset(c)
                left = rest - cs
                if any((a in left and b in cs) or (a in cs and b in cs) for a, b in lt):
                    continue
                rec(left, acc + [cs])
    rec(frozenset(items), [])
    return out


class OrderOracle:
    """dims: list of dicts: endpoint name -> Poly (linear in input atoms, each endpoint adding one new atom).
    extra state of a path: tuple per dim of None | (weak order, gap tuple of (lo, hi|None))"""

    def __init__(self, dims, lt, pre=None):
        self.dims = dims
        self.lt = lt
        self.orders = weak_orders(list(dims[0].keys()), lt) if dims else []
        # express each input atom through endpoints
        self.atom = {}
        for k, d in enumerate(dims):
            known = {}
            todo = dict(d)
            ch = True
            while todo and ch:
                ch = False
                for n, p in list(todo.items()):
                    un = [a for a in p.atoms() if a not in known]
                    if len(un) == 1 and p.t.get((un[0],)) == 1:
                        # un = endpoint - rest
                        rest = p - Poly.a(un[0])
                        e = {(k, n): 1}
                        for m, c in rest.t.items():
                            if m == ():
                                continue
                            for q, v in known[m[0]].items():
                                e[q] = e.get(q, 0) - c * v
                        known[un[0]] = e
                        del todo[n]; ch = True
            self.atom.update(known)
        self.pre = pre

    def init(self):
        return tuple([None] * len(self.dims))

    def lin(self, d):
        """Poly -> (endpoint coeffs, const) or None"""
        co = {}; c0 = 0
        for m, c in d.t.items():
            if m == ():
                c0 += c
            elif len(m) == 1 and m[0] in self.atom:
                for q, v in self.atom[m[0]].items():
                    co[q] = co.get(q, 0) + c * v
            else:
                return None
        return {q: v for q, v in co.items() if v}, c0

    def interval(self, extra, co, c0):
        """interval of the linear form under extra, plus list of (dim, gap index) that contribute imprecision"""
        lo, hi = c0, c0
        imp = []
        for k in {q[0] for q in co}:
            order, gaps = extra[k]
            base = sum(v for q, v in co.items() if q[0] == k)
            if base > 0:
                hi = INF
            elif base < 0:
                lo = INF if lo is None else None
                lo = None
            rank = {n: i for i, cls in enumerate(order) for n in cls}
            for g in range(len(gaps)):
                w = sum(v for (kk, n), v in co.items() if kk == k and rank[n] > g)
                if not w:
                    continue
                a, b = gaps[g]
                if b is None:
                    imp.append((k, g))
                x, y = w * a, (None if b is None else w * b)
                if w > 0:
                    lo = None if lo is None else lo + x
                    hi = None if hi is None or y is None else hi + y
                else:
                    hi = None if hi is None else hi + x
                    lo = None if lo is None or y is None else lo + y
        return lo, hi, imp

    def __call__(self, path, core, a, b):
        r = self.lin(a - b)
        if r is None:
            return None
        co, c0 = r
        dims = sorted({q[0] for q in co})
        ex = path.extra
        todo = [k for k in dims if ex[k] is None]
        starts = [ex]
        for k in todo:
            ns = []
            for e in starts:
                for o in self.orders:
                    if self.pre and not self.pre(k, o):
                        continue
                    l = list(e); l[k] = (o, tuple([(1, None)] * (len(o) - 1)))
                    ns.append(tuple(l))
            starts = ns
        outs = []
        st = list(starts)
        while st:
            e = st.pop()
            lo, hi, imp = self.interval(e, co, c0)
            t = decide(core, lo, hi)
            if t is not None:
                outs.append((e, t)); continue
            sp = [(k, g) for k, g in imp if e[k][1][g] == (1, None)]
            if not sp:
                return None        # caller forks without order knowledge
            k, g = sp[0]
            for cl in ((1, 1), (2, None)):
                l = list(e); gs = list(l[k][1]); gs[g] = cl
                l[k] = (l[k][0], tuple(gs)); st.append(tuple(l))
        if len(outs) == 1 and outs[0][0] == ex:
            return outs[0][1]
        return outs


def decide(core, lo, hi):
    if core == "gt":
        return True if lo is not None and lo > 0 else False if hi is not None and hi <= 0 else None
    if core == "ge":
        return True if lo is not None and lo >= 0 else False if hi is not None and hi < 0 else None
    if core == "lt":
        r = decide("ge", lo, hi)
        return None if r is None else not r
    if core == "le":
        r = decide("gt", lo, hi)
        return None if r is None else not r
    if core == "eq":
        if lo is not None and lo == hi == 0:
            return True
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        return None
    r = decide("eq", lo, hi)
    return None if r is None else not r
