"""D02: the radix tree of the index is an exact ordered map.  Its operations are abstractly interpreted from the empty tree over
small sets of keys (every reachable shape, so every order of insertions and deletions: prefixes of each other, long common
prefixes, the empty key, bytes above 127) and over wide nodes in several orders through every growth and shrink of a node; each
answer, visit, size and release of memory is compared with an ordinary sorted map."""
import os
import itertools
import traceback
import multiprocessing as mp
import ir
from k01 import World, Group, Sink, KI
from copies import Layout
from cstr import lit
from report import Check
from absint import Interp, Path
from sym import Poly
from frontend import AnalysisBroken

PID = "D02"
c = Poly.c
NULL = c(0)
FILES = ["/art.c"]
T = ("reg", ("arg", "tree"))
DATA = Poly.a(("item", "data"))


class AI(KI):
    """pointers whose lowest bit is a mark"""

    def arith(self, op, a, b, x):
        if op in ("and", "or"):
            if a.const() is not None and b.const() is None:
                a, b = b, a
            m = b.const()
            r, o = Interp.split(a)
            if r is not None and o.const() is not None and m is not None:
                k = o.const()
                if op == "or" and m == 1:
                    return a + c(1 - (k & 1))
                if op == "and" and m == 1:
                    return c(k & 1)
                if op == "and" and m in (-2, (1 << 64) - 2):
                    return a - c(k & 1)
        return KI.arith(self, op, a, b, x)


class TW(World):
    def __init__(self, P, where):
        World.__init__(self, P, None, where)
        self.I = AI(P, ext=self.ext, oracle=self.oracle, no_summary=True, max_paths=16, max_steps=200000, depth=40)
        self.S = self.L.fields("art_tree"); self.F = self.L.fields("art_leaf")
        self.stop = None; self.seen = []

    def ext(self, f, args, path, x):
        if f is None:
            fp = next((a for a in self.I.fpv.atoms() if isinstance(a, tuple) and a[0] == "fp"), None) if self.I.fpv is not None else None
            if fp != ("fp", "visit"):
                path.ev("badcall", x); return NULL
            n = args[2].const()
            b = self.bytes(args[1], n, path, x)
            if b is None or args[0] != DATA:
                path.ev("badcall", x); return NULL
            st = tuple(path.extra or ()) + ((b, args[3]),)
            path.extra = st
            return c(7) if self.stop is not None and len(st) == self.stop else NULL
        if f.startswith("llvm.x86.sse2.pmovmskb"):
            v = self.I.unagg(args[0])
            v = [e.const() for e in v] if v else [None]
            if None in v:
                raise AnalysisBroken("vector comparison is not determined")
            return c(sum(1 << i for i, e in enumerate(v) if e & 0x80))
        if f.startswith("llvm.cttz") or f in ("ffs",):
            v = args[0].const()
            if v is None:
                raise AnalysisBroken("bit field is not determined")
            return c(((v & -v).bit_length() - 1) if v else 32) if f != "ffs" else c((v & -v).bit_length())
        if f in ("memcmp", "bcmp", "strncmp"):
            n = args[2].const()
            a, b = self.bytes(args[0], n, path, x), self.bytes(args[1], n, path, x)
            if a is None or b is None:
                path.ev("badcall", x); return NULL
            return c((a > b) - (a < b))
        if f in ("printf", "puts", "fprintf"):
            return NULL
        return World.ext(self, f, args, path, x)

    def bytes(self, p, n, path, x):
        if n is None or n > 4096:
            return None
        n &= 0xffffffff
        self.I.here = x
        if n:
            self.I.bound(p, n, path)
        r = []
        for i in range(n):
            v = self.I.load(p + c(i), path, "i8").const()
            if v is None:
                return None
            r.append(v & 255)
        return bytes(r)

    def empty(self):
        p = Path()
        p.size[T] = self.P.structs["art_tree"]["size"] if "art_tree" in self.P.structs else 16
        for n in ("root", "size"):
            p.mem[(T, self.S[n][0])] = Poly.a(("ld", "junk", n))
        v, q, bad = self.run(p, "art_tree_init", Poly.a(T))
        if q is None or bad:
            raise AnalysisBroken("art_tree_init: %s" % bad)
        q.events = []
        return q

    def op(self, p, fn, key=None, *more):
        """-> (value, path, complaint)"""
        p = p.copy()
        a = [Poly.a(T)]
        if key is not None:
            a += [lit(p, key), c(len(key))]
        p.extra = None
        v, q, bad = self.run(p, fn, *(a + list(more)))
        if q is None:
            return v, p, "ends the process"
        return v, q, bad

    def settle(self, q, key=None):
        """forget the caller's copy of the key; -> (path, shape, blocks lost)"""
        n, k, leaked, _ = self.canon(q, [Poly.a(T)], {("value", i): ("value", i) for i in range(4096)})
        stale = [a for r in n.mem for a in n.mem[r].atoms() if isinstance(a, tuple) and (a == ("stale",) or (a[0] == "reg" and a[1][0] == "str"))]
        return n, k, len(leaked), bool(stale)


def answer(v):
    if v is None:
        return "nothing"
    if v == NULL:
        return None
    a = next((a for a in v.atoms() if isinstance(a, tuple) and a[0] == "value"), None)
    return a[1] if a and v == Poly.a(a) else "something else"


def show(m):
    return "{%s}" % ", ".join(sorted(repr(k)[1:] for k in m))


def queries(W, G, p, m, keys, prefixes, few=False):
    """everything that only reads: p holds the map m"""
    n = p.mem.get((T, W.S["size"][0]), NULL).const()
    G.judge("size", None, n == len(m), "%s holds %d keys, says %s" % (show(m), len(m), n))
    for k in keys:
        v, q, bad = W.op(p, "art_search", k)
        G.judge("search", bad and "%s: looking for %r: %s" % (show(m), k, bad), answer(v) == m.get(k), "%s: %r finds %s" % (show(m), k, answer(v)))
    order = sorted(m)
    for fn, want in (("art_minimum", order[0] if m else None), ("art_maximum", order[-1] if m else None)):
        v, q, bad = W.op(p, fn)
        got = None
        if not bad and v is not None and v != NULL:
            ln = W.I.load(v + c(W.F["key_len"][0]), q, "i32").const()
            got = W.bytes(v + c(W.F["key"][0]), ln, q, None)
        G.judge(fn[4:] + " key", bad, got == want, "%s: answers %r" % (show(m), got))
    fv = Poly.a(("fp", "visit"))

    def visit(fn, want, what, *a):
        for stop in ([None] if few else [None] + list(range(1, len(want) + 1))):
            W.stop = stop
            v, q, bad = W.op(p, fn, *(list(a) if a else [None]), fv, DATA)
            W.stop = None
            seen = [(k, answer(t)) for k, t in (q.extra or ())]
            w = [(k, m[k]) for k in (want if stop is None else want[:stop])]
            G.judge("walk" if not a else "walk of a prefix", bad and "%s%s: %s" % (show(m), what, bad), seen == w, "%s%s: visits %s" % (show(m), what, [k for k, _ in seen]))
            r = 7 if stop is not None else 0
            G.judge("answer of a walk", bad, v is not None and v.const() == r, "%s%s, stopped at visit %s: answers %s" % (show(m), what, stop, v))
    visit("art_iter", order, "")
    for k in prefixes:
        visit("art_iter_prefix", [w for w in order if w.startswith(k)], " under %r" % k, k)


def destroy(W, G, p, m):
    v, q, bad = W.op(p, "art_tree_destroy")
    n, k, lost, _ = W.settle(q)
    left = [r for r in q.size if r[1][0] == "heap" and r not in q.freed]
    G.judge("destroy", bad and "%s: %s" % (show(m), bad), not left, "%s: leaves %d blocks of memory" % (show(m), len(left)))


def change(W, G, p, m, fn, k, val=None):
    """-> (path, shape, map)"""
    m2 = dict(m)
    if fn == "art_delete":
        v, q, bad = W.op(p, fn, k)
        want = m2.pop(k, None)
    else:
        v, q, bad = W.op(p, fn, k, Poly.a(("value", val)))
        want = m.get(k)
        if want is None or fn == "art_insert":
            m2[k] = val
    what = "%s: %s of %r" % (show(m), fn[4:], k)
    G.judge(fn[4:], bad and "%s: %s" % (what, bad), answer(v) == want, "%s answers %s" % (what, answer(v)))
    n, key, lost, stale = W.settle(q)
    G.judge(fn[4:] + " releases", bad, not lost, "%s: %d blocks of memory lost" % (what, lost))
    G.judge(fn[4:] + " keeps its own copy", bad, not stale, "%s: the tree still points to the caller's key or to freed memory" % what)
    return n, key, m2, bad


def explore(P, chk, name, uni, probes, limit):
    W = TW(P, name)
    with Group(chk, "keys %s" % name) as G:
        start, key, _, _ = W.settle(W.empty())
        seen = {key: None}
        work = [(start, {})]
        n = 0
        while work:
            if G.enough():
                break
            p, m = work.pop()
            n += 1
            if n > limit:
                raise AnalysisBroken("more than %d shapes" % limit)
            queries(W, G, p, m, uni + probes, uni + probes)
            destroy(W, G, p, m)
            for i, k in enumerate(uni):
                todo = [("art_insert", i), ("art_delete", None)]
                if k in m:
                    todo.append(("art_insert_no_replace", 100 + i))
                else:
                    todo.append(("art_insert_no_replace", i))
                for fn, val in todo:
                    q, key, m2, bad = change(W, G, p, m, fn, k, val)
                    if bad:
                        continue
                    if key not in seen:
                        seen[key] = 1
                        work.append((q, m2))
                if k in m:
                    q, key, m2, bad = change(W, G, p, m, "art_insert", k, 200 + i)
                    if not bad:
                        v, r, bad = W.op(q, "art_search", k)
                        G.judge("insert replaces", bad, answer(v) == 200 + i, "%s: %r keeps the old value" % (show(m), k))
            for k in probes:
                if k not in m:
                    q, key, m2, bad = change(W, G, p, m, "art_delete", k)
        chk.count("shapes", n)
        G.judge("shapes", None, n >= 3, "only %d shapes" % n)


def holes(W, G, p, m, full, pre):
    """keys in the middle of the node leave, others come"""
    here = [k for k in full if k in m]
    gone = [k for k in full if k not in m]
    for k in here[1:len(here):max(1, len(here) // 3)][:3]:
        p, key, m, bad = change(W, G, p, m, "art_delete", k)
        if bad:
            return
    for i, k in enumerate((gone[len(gone) // 2:] + gone)[:4]):
        p, key, m, bad = change(W, G, p, m, "art_insert", k, 700 + i)
        if bad:
            return
    queries(W, G, p, m, here + gone[:3], [pre], True)


def wide(P, chk, name, pre, order, back, th):
    """one node through every size and back"""
    W = TW(P, name)
    with Group(chk, "wide node, %s" % name) as G:
        p, _, _, _ = W.settle(W.empty())
        m = {}
        full = [pre + bytes([b]) for b in order]
        some = {1, 2, 3, 4, 5, 15, 16, 17, 18, 47, 48, 49, 50, len(full)}
        probes = [pre, pre + b"\x01", pre + b"\x80", pre + b"\xff", pre + b"\x7f", pre[:-1], pre + b"\x01x"]
        if pre:
            p, key, m, bad = change(W, G, p, m, "art_insert", pre, 999)
        for i, k in enumerate(full):
            p, key, m, bad = change(W, G, p, m, "art_insert", k, i)
            if bad:
                return
            if i + 1 in some:
                ks = list(m) if len(m) <= 20 or th else sorted(m)[::7] + [k, full[0]]
                queries(W, G, p, m, ks + probes, [pre, b"", k, pre[:1], pre + b"\xf0"], True)
                holes(W, G, p, m, full, pre)
        destroy(W, G, p, m)
        del_at = {49, 48, 39, 38, 37, 36, 35, 34, 17, 16, 15, 14, 13, 12, 11, 10, 5, 4, 3, 2, 1, 0}
        for k in ([full[i] for i in back] if back else full):
            p, key, m, bad = change(W, G, p, m, "art_delete", k)
            if bad:
                return
            if len(m) in del_at:
                ks = list(m) if len(m) <= 20 or th else sorted(m)[::5]
                queries(W, G, p, m, ks + probes + [k], [pre, b""], True)
                if len(m) in (13, 12, 37, 38, 3, 4):
                    q, key, m2, bad = change(W, G, p, m, "art_insert", k, 500)
                    queries(W, G, q, m2, ks + [k], [pre], True)
                if len(m) in (49, 38, 16, 13, 5, 3):
                    holes(W, G, p, m, full, pre)
        destroy(W, G, p, m)


A12 = b"a" * 12
UNI = {
    "of one letter and their prefixes": ([b"", b"a", b"ab", b"b"], [b"abc", b"c", b"\xe9"]),
    "that continue each other": ([b"ab", b"abc", b"abd", b"abcde"], [b"", b"a", b"abx", b"abcd", b"abcdef", b"zz"]),
    "with two branches": ([b"abcx", b"abcy", b"abdx", b"q"], [b"", b"ab", b"abc", b"abd", b"abxc", b"abcdx", b"abz"]),
    "with bytes above 127": ([b"\xe9", b"\xe9a", b"z", b"\x7f"], [b"\xff", b"\xe9b", b""]),
    "with a common prefix of twelve letters": ([A12 + b"b", A12 + b"c", A12 + b"bd", b"q"], [A12, b"aaaa", b"a", b"", A12 + b"d", b"aaaax" + A12, b"aaaaaaaaaax", b"aaaaaaaaaaaxb"]),
    "that split a long prefix": ([b"abcdefghijklmnopqr1", b"abcdefghijklmnopqr2", b"abcdefghijklmXYZ", b"abcdeQ"], [b"abcdefghijklm", b"abcdefghijk", b"abcdefghijxx", b"abcdexghijklmnop", b"a", b"abcdefghijklmnopqr", b"abcdefghijklmno1"]),
    "two long prefixes in a row": ([A12 + b"x" + A12 + b"1", A12 + b"x" + A12 + b"2", A12 + b"y", A12 + b"x" + b"aaaaaz"], [A12 + b"x", A12 + b"xaaa", A12 + b"xaaab", A12 + b"x" + A12, A12]),
    "with a prefix of exactly ten letters": ([b"abcdefghij1", b"abcdefghij2", b"abcdefghijk3", b"abcdefghij"], [b"abcdefghi", b"abcdefghijk", b"abcdefghix", b"a"]),
}
MORE = {
    "five that continue each other": ([b"", b"a", b"ab", b"abc", b"abcd"], [b"abx", b"abcde"]),
    "five with two branches": ([b"abcx", b"abcy", b"abdx", b"abdy", b"abd"], [b"abc", b"ab", b"abz", b"abcdx"]),
    "five around a long prefix": ([A12 + b"b", A12 + b"c", A12, b"aaaa", A12 + b"bd"], [b"a", A12 + b"d", b"aaaaaaaaaaax"]),
}


def part(a):
    kind, name, th = a
    chk = Sink(); broken = None
    try:
        P = ir.program("commons", only=FILES)
        if kind == "keys":
            u, pr = dict(UNI, **MORE)[name]
            explore(P, chk, name, u, pr, 3000)
        else:
            pre, order, back = WIDE[name]
            wide(P, chk, name, pre, order, back, th)
    except AnalysisBroken as e:
        broken = str(e)
    except Exception:
        broken = traceback.format_exc()
    return str(a[:-1]), chk.counts, chk.obl, broken


B = list(range(1, 256))
WIDE = {
    "ascending": (b"", B, None),
    "descending": (b"p", B[::-1], None),
    "spread": (b"pq", [(37 * i) % 255 + 1 for i in range(255)], [(101 * i + 5) % 255 for i in range(255)]),
    "high bytes first": (A12, B[127:180] + B[:10], list(range(62, -1, -1))),
    "up to twenty, mixed": (b"k", [200, 5, 130, 127, 128, 255, 1, 64, 192, 63, 65, 129, 254, 2, 100, 150, 99, 151, 98, 3], [5, 0, 19, 7, 3, 11, 2, 18, 1, 16, 4, 17, 6, 10, 8, 15, 9, 14, 12, 13]),
}


def run():
    chk = Check(PID, "the radix tree of the index is an exact ordered map")
    th = chk.tier == "thorough"
    ir.program("commons", only=FILES)
    parts = [("wide", n, th) for n in WIDE] + [("keys", n, th) for n in list(UNI) + (list(MORE) if th else [])]
    chk.analysed = {"parts": [repr(p[:-1]) for p in parts]}
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(part, parts, chunksize=1)
    for name, counts, obl, broken in res:
        for k, v in counts.items():
            chk.count(k, v)
        for o in obl:
            chk.oblige(*o)
        if broken:
            chk.broken.append("%s: %s" % (name, broken))
    chk.floor("shapes", 60)
    chk.assumptions += ["keys are C strings given with their length: the byte after the key is a readable zero and no key byte is zero",
                        "memory is available"]
    return chk.finish("Tree operations interpreted on every shape reachable with the listed keys and on nodes of every size; each answer, walk, "
                      "early stop, replaced value, size and freed block compared with a sorted map.")
