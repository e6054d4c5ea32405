"""B01: a counting Bloom filter never denies a member.  Additions, removals and checks are abstractly interpreted from every
filter state reachable with a bounded number of members; a key is known only by the two hash values the filter takes from it
(distinct, colliding and degenerate ones are all explored), so the result holds for every hash function."""
import math
import os
import itertools
import traceback
import multiprocessing as mp
from fractions import Fraction
import ir
from k01 import World, Group, KI, Sink, truth, key, atom
from report import Check
from absint import Interp, Path
from sym import Poly
from frontend import AnalysisBroken

PID = "B01"
c = Poly.c
NULL = c(0)
LEN = {"x": 3, "y": 3, "z": 1}


def num(p):
    v = p.const()
    if v is None:
        raise AnalysisBroken("a size of the filter is not determined by its capacity and error rate")
    return float(v)


class BW(World):
    def ext(self, f, args, path, x):
        g = {"log": lambda a: math.log(a), "fabs": abs, "llvm.fabs.f64": abs, "ceil": math.ceil, "llvm.ceil.f64": math.ceil,
             "floor": math.floor, "llvm.floor.f64": math.floor, "sqrt": math.sqrt, "llvm.log.f64": math.log}
        if f in g:
            return c(Fraction(g[f](num(args[0]))))
        if f in ("pow", "llvm.pow.f64"):
            return c(Fraction(math.pow(num(args[0]), num(args[1]))))
        if f and f.startswith("MurmurHash3"):
            k = self.keyof(args[0])
            if k is None or args[1].const() != LEN.get(k):
                path.ev("wrongkey", x)
                return c(0)
            for i in range(4):
                self.I.store(args[3] + c(4 * i), c(self.h[k][i % 2] if i < 2 else 0), path)
            return c(0)
        return World.ext(self, f, args, path, x)


class BI(KI):
    """floating point division of known numbers"""

    def arith(self, op, a, b, x):
        ca, cb = a.const(), b.const()
        if op == "fdiv" and ca is not None and cb:
            return c(Fraction(float(ca) / float(cb)))
        if op in ("fmul", "fadd", "fsub") and ca is not None and cb is not None:
            u, v = float(ca), float(cb)
            r = {"fmul": u * v, "fadd": u + v, "fsub": u - v}[op]
            return c(int(r)) if r == int(r) else c(Fraction(r))
        return KI.arith(self, op, a, b, x)


def world(P, where, h):
    W = BW(P, None, where)
    W.I = BI(P, ext=W.ext, oracle=W.oracle, no_summary=True, max_paths=64, max_steps=60000)
    W.cls = {k: i for i, k in enumerate(LEN)}
    W.h = h
    return W


HS = [{"x": (5, 7), "y": (11, 2), "z": (3, 0)}, {"x": (5, 7), "y": (5, 7), "z": (0, 0)},
      {"x": (0xFFFFFFFF, 0xFFFFFFFF), "y": (1, 0x80000000), "z": (0x7FFFFFFF, 1)}, {"x": (4, 1), "y": (5, 1), "z": (6, 1)}]


def counting(P, chk, th, G):
    for cap, err in ((2, Fraction(1, 4)), (3, Fraction(1, 20)), (10, Fraction(1, 2)), (5, Fraction(1, 100)))[:4 if th else 3]:
        for h in HS:
            W = world(P, "counting filter", h)
            v, p, bad = W.run(Path(), "new_counting_bloom", c(cap), c(err))
            G.judge("new", bad, v is not None and v != NULL, "gives no filter")
            if bad or p is None or v == NULL:
                continue
            p, _, leaked, (v,) = W.canon(p, [v], {})
            st = [(p, v, (0, 0, 0))]; seen = set()
            while st:
                if G.enough():
                    break
                p, b, m = st.pop()
                for i, k in enumerate(LEN):
                    r, q, bad = W.run(p, "counting_bloom_check", b, key(k), c(LEN[k]))
                    if m[i]:
                        G.judge("check", bad, r is not None and r.const() not in (0, None), "denies a member, members %s" % (m,))
                    elif not any(m):
                        G.judge("check", bad, r is not None and r.const() == 0, "an empty filter claims a member")
                    else:
                        G.judge("check", bad, True, "")
                r, q, bad = W.run(p, "free_counting_bloom", b)
                G.judge("free", bad, q is not None and not W.canon(q, [], {})[2], "leaves memory allocated")
                for i, k in enumerate(LEN):
                    for fn, d in (("counting_bloom_add", 1), ("counting_bloom_remove", -1)):
                        if not 0 <= m[i] + d <= (3 if i == 0 or th else 2):
                            continue
                        r, q, bad = W.run(p, fn, b, key(k), c(LEN[k]))
                        G.judge(fn.split("_")[-1], bad, q is not None, "ends the process")
                        if bad or q is None:
                            continue
                        q, kk, leaked, (b2,) = W.canon(q, [b], {})
                        m2 = tuple(n + (d if j == i else 0) for j, n in enumerate(m))
                        if leaked:
                            G.no(fn.split("_")[-1], "leaves memory behind"); continue
                        if (m2, kk) in seen:
                            continue
                        seen.add((m2, kk))
                        if len(seen) > 1500:
                            if G.bad:
                                return
                            raise AnalysisBroken("more than 1500 filter states")
                        st.append((q, b2, m2))
            chk.count("states", len(seen))
            # up to the capacity of a counter
            v, p, bad = W.run(Path(), "new_counting_bloom", c(cap), c(err))
            n = 15
            for step in range(n):
                r, p, bad = W.run(p, "counting_bloom_add", v, key("x"), c(3))
                if bad or p is None:
                    G.no("add", bad or "ends the process"); break
                r, q, bad = W.run(p, "counting_bloom_check", v, key("x"), c(3))
                G.judge("check", bad, r is not None and r.const() not in (0, None), "denies a member added %d times" % (step + 1))
            for step in range(n):
                r, q, bad = W.run(p, "counting_bloom_check", v, key("x"), c(3))
                G.judge("check", bad, r is not None and r.const() not in (0, None), "denies a member added %d and removed %d times" % (n, step))
                r, p, bad = W.run(p, "counting_bloom_remove", v, key("x"), c(3))
                if bad or p is None:
                    G.no("remove", bad or "ends the process"); break
            r, q, bad = W.run(p, "counting_bloom_check", v, key("x"), c(3))
            G.judge("check", bad, r is not None and r.const() == 0, "a filter whose members were all removed claims one")


def scaling(P, chk, th, G):
    for cap, err in ((2, Fraction(1, 4)), (3, Fraction(1, 10))):
        for h in HS:
            W = world(P, "scaling filter", h)
            v, p, bad = W.run(Path(), "new_scaling_bloom", c(cap), c(err))
            G.judge("new", bad, v is not None and v != NULL, "gives no filter")
            if bad or p is None or v == NULL:
                continue
            for seq in itertools.product("xyz", repeat=5 if th else 4):
                q = p; ids = []
                for i, k in enumerate(seq):
                    r, q, bad = W.run(q, "scaling_bloom_add", v, key(k), c(LEN[k]), c(i + 1))
                    if bad or q is None:
                        G.no("add", bad or "ends the process"); break
                    ids.append((k, i + 1))
                    for k2 in LEN:
                        r, q2, bad = W.run(q, "scaling_bloom_check", v, key(k2), c(LEN[k2]))
                        G.judge("check", bad, not any(a == k2 for a, _ in ids) or truth(r), "denies %s after adding %s" % (k2, seq[:i + 1]))
                if q is None or bad:
                    continue
                chk.count("states")
                for drop in range(len(ids)):
                    k, d = ids[drop]
                    r, q2, bad = W.run(q, "scaling_bloom_remove", v, key(k), c(LEN[k]), c(d))
                    if bad or q2 is None:
                        G.no("remove", bad or "ends the process"); continue
                    rest = ids[:drop] + ids[drop + 1:]
                    for k2 in LEN:
                        r, q3, bad = W.run(q2, "scaling_bloom_check", v, key(k2), c(LEN[k2]))
                        G.judge("remove", bad, not any(a == k2 for a, _ in rest) or truth(r),
                                "denies %s after adding %s and removing the %s with id %d" % (k2, seq, k, d))
                q2 = q
                for k, d in ids:
                    r, q2, bad = W.run(q2, "scaling_bloom_remove", v, key(k), c(LEN[k]), c(d))
                    if bad or q2 is None:
                        G.no("remove", bad or "ends the process"); break
                if q2 is not None and not bad:
                    for k2 in LEN:
                        r, q3, bad = W.run(q2, "scaling_bloom_check", v, key(k2), c(LEN[k2]))
                        G.judge("check", bad, r is not None and r.const() == 0, "claims %s though all of %s were removed" % (k2, seq))
                r, q2, bad = W.run(q, "free_scaling_bloom", v)
                G.judge("free", bad, q2 is not None and not W.canon(q2, [], {})[2], "leaves memory allocated")


def part(a):
    name, fn, th = a
    chk = Sink(); broken = None
    try:
        P = ir.program("server", only=["/pdc_dablooms.c", "/pdc_murmur.c"])
        with Group(chk, name) as G:
            fn(P, chk, th, G)
    except AnalysisBroken as e:
        broken = str(e)
    except Exception:
        broken = traceback.format_exc()
    return name, chk.counts, chk.obl, broken


def run():
    chk = Check(PID, "in every reachable filter state a key added more often than removed is reported as a member")
    th = chk.tier == "thorough"
    ir.program("server", only=["/pdc_dablooms.c", "/pdc_murmur.c"])
    parts = [("counting filter", counting, th), ("scaling filter", scaling, th)]
    chk.analysed = {"parts": [p[0] for p in parts]}
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(part, parts, chunksize=1)
    for name, counts, obl, broken in res:
        for k, v in counts.items():
            chk.count(k, v)
        for o in obl:
            chk.oblige(*o)
        if broken:
            chk.broken.append("%s: %s" % (name, broken))
    chk.assumptions += ["no counter exceeds fifteen", "MurmurHash3 is a function of the key's bytes and length (any function will do)",
                        "memory for the filter is available"]
    chk.floor("steps", 3000); chk.floor("states", 300); chk.floor("obligations", 8)
    return chk.finish("Every filter operation was abstractly interpreted from every state reachable with a bounded number of members, "
                      "for distinct, equal and degenerate hash values.")
