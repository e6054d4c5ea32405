"""D01: the distributed index asks every server that may hold a match.  The routing functions are abstractly interpreted for
words over characters of every residue class (which is all routing distinguishes), for numbers of servers that give every tree
height, with every outcome of the load comparison at insertion; where the record of each word can be is compared with where
each kind of query that the word satisfies, and each deletion, is sent."""
import itertools
import math
import os
import traceback
import multiprocessing as mp
from fractions import Fraction
import ir
from k01 import World, Group, Sink
from b01 import BI, num
from copies import Layout
from cstr import Strings, lit
from report import Check
from absint import Interp, Path
from sym import Poly
from frontend import AnalysisBroken

PID = "D01"
c = Poly.c
NULL = c(0)
FILES = ["/dart_core.c", "/dart_math.c", "/dart_algo.c", "/string_utils.c"]
D = ("reg", ("arg", "dart"))
OUT = ("reg", ("arg", "out"))
M32 = (1 << 32) - 1


class DW(World):
    def __init__(self, P, where):
        World.__init__(self, P, None, where)
        self.I = BI(P, ext=self.ext, oracle=self.oracle, no_summary=True, max_paths=16, max_steps=3000000)
        self.I.wrap32 = True
        self.S = Strings(self.I)
        self.L = Layout(P)
        self.load = None
        self.F = self.L.fields("DART")
        self.R = self.L.fields("index_hash_result_t")
        self.RS = P.structs["index_hash_result_t"]["size"]
        self.SF = self.L.fields("dart_server")

    def ext(self, f, args, path, x):
        g = {"log": math.log, "ceil": math.ceil, "llvm.ceil.f64": math.ceil, "floor": math.floor, "llvm.floor.f64": math.floor,
             "log2": math.log2, "log10": math.log10, "llvm.log.f64": math.log}
        if f in g:
            return c(Fraction(g[f](num(args[0]))))
        if f in ("pow", "llvm.pow.f64"):
            return c(Fraction(math.pow(num(args[0]), num(args[1]))))
        if f == "abs" or (f or "").startswith("llvm.abs"):
            v = args[0].const()
            if v is None:
                if any(e[0] in ("oob", "uaf", "uninit") for e in path.events):
                    return NULL                     # reported from the events
                raise AnalysisBroken("abs of an unknown number")
            v &= M32
            v = v - (1 << 32) if v >> 31 else v
            return c(abs(v))
        if f in ("printf", "puts", "fprintf", "fputc", "fflush", "println"):
            return NULL
        if f and f.startswith("thpool_"):
            return Poly.a(("reg", ("ext", "pool")))
        if f is None:
            fp = next((a for a in self.I.fpv.atoms() if isinstance(a, tuple) and a[0] == "fp"), None) if self.I.fpv is not None else None
            if fp != ("fp", "load"):
                path.ev("badcall", x); return NULL
            s = args[1].const()
            if s is None or not 0 <= s < self.n:
                path.ev("badcall", x); return NULL
            self.I.here = x
            for m, v in (("id", s), ("indexed_word_count", self.load(s)), ("request_count", 0)):
                self.I.store(args[0] + c(self.SF[m][0]), c(v), path)
            return NULL
        r = self.S.call(f, args, path, x)
        if r is not None:
            return r
        return World.ext(self, f, args, path, x)

    def space(self, A, n, repl, extra=0):
        p = Path()
        p.size[D] = self.P.structs["DART"]["size"]
        v, q, bad = self.run(p, "dart_space_init", Poly.a(D), c(3), c(n), c(A), c(extra), c(repl))
        if q is None or bad:
            raise AnalysisBroken("dart_space_init: %s" % bad)
        self.n = n; self.A = A; self.repl = repl
        get = lambda m: q.mem.get((D, self.F[m][0]))
        self.height = get("dart_tree_height").const()
        q.events = []
        return q

    def route(self, base, fn, word, op, load=None, count=0, length=None):
        """-> ([(server, key)], complaint)"""
        p = base.copy(); p.events = []
        p.mem[(D, self.F["client_request_count"][0])] = c(count)
        p.mem[(OUT, 0)] = Poly.a(("ld", "junk", 0)); p.size[OUT] = 8
        w = lit(p, word.encode("latin1"))
        self.load = load
        a = [Poly.a(D), w, c(op), Poly.a(("fp", "load")) if load else NULL, Poly.a(OUT)] if fn == "DART_hash" else \
            [Poly.a(D), c(length), w, c(op), Poly.a(OUT)]
        v, q, bad = self.run(p, fn, *a)
        if q is None:
            return None, "never returns"
        if bad:
            return None, bad
        k = v.const() if v is not None else None
        if k is None:
            return None, "answers an unknown number of servers"
        k = k - (1 << 32) if k >> 31 and k < (1 << 32) else k
        if k < 0:
            return None, "answers %d servers" % k
        arr = q.mem.get((OUT, 0))
        res = []; roots = [arr] if arr is not None else []
        r, o = Interp.split(arr) if arr is not None else (None, None)
        if k and (r is None or r in q.freed or (q.size.get(r).const() if isinstance(q.size.get(r), Poly) else q.size.get(r) or 0) < k * self.RS):
            return None, "answers more servers than it lists"
        for i in range(k):
            s = q.mem.get((r, i * self.RS + self.R["server_id"][0]), NULL if r in q.zero else None)
            t = q.mem.get((r, i * self.RS + self.R["key"][0]), None)
            if s is None or s.const() is None or t is None:
                return None, "entry %d is not filled in" % i
            q.events = []
            b = self.S.get(t, q, None)
            if b is None or any(e[0] in ("oob", "uaf", "uninit") for e in q.events):
                return None, "entry %d has no key" % i
            if not 0 <= s.const() < self.n:
                return None, "server %d of %d" % (s.const(), self.n)
            res.append((s.const(), b.decode("latin1")))
            roots.append(t)
        _, _, leaked, _ = self.canon(q, [x for x in roots if x != NULL], {})
        if leaked:
            return None, "leaves %d blocks of memory allocated" % len(leaked)
        return res, None


def enum(P, n):
    for e in P.enums.values():
        d = dict(e.items() if isinstance(e, dict) else e)
        if n in d:
            return d[n]
    raise AnalysisBroken("%s not found" % n)


def words(alpha, n, lo=1):
    for k in range(lo, n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield "".join(t)


LOADS = [("fewest words on low servers", lambda s: s), ("fewest words on high servers", lambda s: -s)]


def cell(P, G, sfx, A, alpha, n, repl, extra, cap, th):
    W = DW(P, "dart")
    base = W.space(A, n, repl, extra)
    ins, ex, pre, suf, inf, dele = [enum(P, "OP_" + t) for t in ("INSERT", "EXACT_QUERY", "PREFIX_QUERY", "SUFFIX_QUERY", "INFIX_QUERY", "DELETE")]
    H = W.height
    full = [w for w in words(alpha, H + 2)]
    while len(full) > cap:          # the longest words over every second combination only
        m = max(map(len, full))
        k = [w for w in full if len(w) == m]
        rest = [w for w in full if len(w) < m]
        if len(k) <= 4:
            break
        full = rest + k[::2 if len(k) // 2 + len(rest) > cap else 1]
        if len(k) == len([w for w in full if len(w) == m]):
            full = rest + k[::2]
    where = "%d of %d letters, %d servers, %d copies%s" % (len(alpha), A, n, repl, ", suffix trees" if sfx else "")
    place = {}          # key -> list of sets of servers, one per load outcome
    recs = {}           # word -> keys

    def key_ok(w, t):
        return t != "" and (w.endswith(t) if sfx else t in (w, w[::-1]))
    for w in sorted(full, key=len, reverse=True):
        for lname, load in LOADS:
            res, bad = W.route(base, "DART_hash", w, ins, load)
            G.judge("insert", bad, bad is None, "%s: word %r" % (where, w))
            if bad:
                continue
            by = {}
            for s, t in res:
                by.setdefault(t, []).append(s)
            want = {w[i:] for i in range(len(w))} if sfx else {w, w[::-1]}
            G.judge("keys of a word", None, set(by) == want, "%s: word %r is indexed under %s" % (where, w, sorted(by)))
            for t, ss in by.items():
                place.setdefault(t, [])
                f = frozenset(ss)
                if f not in place[t]:
                    place[t].append(f)
            recs.setdefault(w, set()).update(by)
    G.judge("placements", None, bool(place), "%s: nothing is placed" % where)
    counts = [0, 1, repl] if repl > 1 else [0]
    miss = {}

    def send(q, op, cnt, tok=None):
        if not sfx and op == suf:
            tok = q[::-1]
        res, bad = W.route(base, "DART_hash", q if tok is None else tok, op, None, cnt)
        name = {ex: "exact", pre: "prefix", suf: "suffix", inf: "infix", dele: "delete"}[op]
        G.judge(name + " query", bad, bad is None, "%s: %r" % (where, q))
        return None if bad else res

    # exact, prefix, suffix, infix
    qs = sorted(set(q for w in full for q in (w, w[:1], w[:H - 1], w[:H], w[:H + 1], w[-1:], w[-H:]) if q))
    for cnt in counts:
        for q in qs + [""]:
            if q:
                r = send(q, ex, cnt)
                if r is not None and q in recs:
                    got = {s for s, _ in r}
                    for f in place[q]:
                        G.judge("exact query finds the word", None, bool(got & f), "%s: %r is on %s, asked are %s" % (where, q, sorted(f), sorted(got)))
            r = send(q, pre, cnt)
            if r is not None:
                got = {s for s, _ in r}
                for w in full:
                    if w.startswith(q):
                        for f in place.get(w, ()):
                            G.judge("prefix query finds the word", None, bool(got & f), "%s: %r* must find %r on %s, asked are %s" % (where, q, w, sorted(f), sorted(got)))
            if q:
                r = send(q, suf, cnt)
                if r is not None:
                    got = {s for s, _ in r}
                    for w in full:
                        if w.endswith(q):
                            for f in place.get(q if sfx else w[::-1], ()):
                                G.judge("suffix query finds the word", None, bool(got & f), "%s: *%r must find %r on %s, asked are %s" % (where, q, w, sorted(f), sorted(got)))
            r = send(q, inf, cnt)
            if r is not None:
                got = {s for s, _ in r}
                for w in full:
                    if q in w:
                        ks = [w[i:] for i in range(len(w)) if w[i:].startswith(q)] if sfx else [w]
                        ok = any(all(got & f for f in place.get(t, ())) and t in place for t in ks)
                        G.judge("infix query finds the word", None, ok, "%s: *%r* must find %r, asked are %s" % (where, q, w, sorted(got)))
    for w in full:
        r = send(w, dele, 0)
        if r is None:
            continue
        by = {}
        for s, t in r:
            by.setdefault(t, set()).add(s)
        for t in recs.get(w, ()):
            for f in place[t]:
                G.judge("delete reaches every copy", None, f <= by.get(t, set()), "%s: key %r of %r is on %s, deleted on %s" % (where, t, w, sorted(f), sorted(by.get(t, ()))))


def dht(P, G, sfx, alpha, n, th):
    W = DW(P, "dht")
    base = W.space(27, n, 1)
    ins, ex, pre, suf, inf, dele = [enum(P, "OP_" + t) for t in ("INSERT", "EXACT_QUERY", "PREFIX_QUERY", "SUFFIX_QUERY", "INFIX_QUERY", "DELETE")]
    ws = list(words(alpha, 3))
    for initial in (False, True):
        where = "hash of the %s, %d servers" % ("first letter" if initial else "word", n)

        def send(t, op):
            res, bad = W.route(base, "DHT_hash", t, op, None, 0, 1 if initial else len(t))
            G.judge("hash routing", bad, bad is None, "%s: %r" % (where, t))
            if res is not None:
                G.judge("hash routing keys", None, all(k == t for _, k in res), "%s: %r is sent as %s" % (where, t, sorted({k for _, k in res})))
            return None if bad else {s for s, _ in res}
        at = {w: send(w, ins) for w in ws}
        for w in ws:
            if at[w] is None:
                continue
            for op, qq in ((ex, [w]), (pre, [w[:i] for i in range(len(w) + 1)]), (suf, [w[i:] for i in range(len(w))]),
                           (inf, [w[i:j] for i in range(len(w)) for j in range(i, len(w) + 1)]), (dele, [w])):
                for q in qq:
                    t = q[::-1] if op == suf and not sfx else q
                    got = send(t, op)
                    if got is None:
                        continue
                    ok = at[w] <= got if op == dele else bool(at[w] & got)
                    G.judge("hash routing finds the word", None, ok, "%s: %r for %r goes to %s, the word is on %s" % (
                        where, {ex: "exact", pre: "prefix", suf: "suffix", inf: "infix", dele: "delete"}[op], w + " (" + q + ")", sorted(got), sorted(at[w])))


def helpers(P, G, th):
    """requests are counted from one on, whatever the counter held"""
    W = DW(P, "dart")
    base = W.space(3, 4, 2)
    for k, want in ((0, 1), (7, 8), (-5, 1), (2 ** 31 - 2, 2 ** 31 - 1)):
        p = base.copy(); p.events = []
        p.mem[(D, W.F["client_request_count"][0])] = c(k & M32 if k < 0 else k)
        v, q, bad = W.run(p, "dart_client_request_count_incr", Poly.a(D))
        G.judge("request counter", bad, v is not None and v.const() is not None and v.const() >= 0 and
                q.mem.get((D, W.F["client_request_count"][0])) is not None, "from %d to %s" % (k, v))


def configs(th):
    E9 = "\xe9"
    out = []
    for sfx in (True, False):
        for n in (1, 2, 3, 4, 5, 7, 8, 9):
            out.append((sfx, 3, "abc", n, 1 + n % 3, 0))
        out += [(sfx, 3, "ab" + E9, 4, 1, 0), (sfx, 3, "ab" + E9, 7, 2, 0), (sfx, 3, "ac", 10, 1, 0), (sfx, 3, "bc", 13, 2, 0), (sfx, 2, "ab", 3, 1, 0), (sfx, 2, "ab", 5, 2, 0),
                (sfx, 27, "akz", 10, 1, 0), (sfx, 27, "lk" + E9, 10, 2, 0), (sfx, 27, "alm", 2, 1, 0), (sfx, 4, "abc", 6, 1, 0), (sfx, 3, "abc", 2, 1, 1)]
        if th:
            out += [(sfx, 27, "ak", 28, 1, 0), (sfx, 3, "abc", 6, 3, 0), (sfx, 5, "abe", 11, 2, 0), (sfx, 3, "ab" + E9, 10, 3, 0), (sfx, 4, "abcd", 4, 1, 0)]
    return out


def part(a):
    kind, th = a[0], a[-1]
    chk = Sink(); broken = None
    name = "routing"
    try:
        if kind == "dart":
            sfx = a[1]
            P = ir.program("commons" if sfx else "nosfx", only=FILES)
            with Group(chk, "index %s suffix trees, alphabet of %d, %d servers, %s" % ("with" if sfx else "without", a[2], a[4], "".join("%02x" % ord(t) for t in a[3]))) as G:
                cell(P, G, sfx, a[2], a[3], a[4], a[5], a[6], 400 if th else 110, th)
        elif kind == "dht":
            P = ir.program("commons" if a[1] else "nosfx", only=FILES)
            with Group(chk, "hash index %s suffix trees, %d servers" % ("with" if a[1] else "without", a[2])) as G:
                dht(P, G, a[1], "ab\xe9", a[2], th)
        else:
            P = ir.program("commons", only=FILES)
            with Group(chk, "helpers") as G:
                helpers(P, G, th)
    except AnalysisBroken as e:
        broken = str(e)
    except Exception:
        broken = traceback.format_exc()
    return str(a[:-1]), chk.counts, chk.obl, broken


def run():
    chk = Check(PID, "every query of the distributed index is sent to a server holding each word it matches, every deletion to all of them")
    th = chk.tier == "thorough"
    for g in ("commons", "nosfx"):
        ir.program(g, only=FILES)
    parts = [("dart",) + t + (th,) for t in configs(th)] + [("dht", s, n, th) for s in (True, False) for n in (1, 3, 8)] + [("help", th)]
    chk.analysed = {"configurations": [repr(p[:-1]) for p in parts]}
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(part, parts, chunksize=1)
    for name, counts, obl, broken in res:
        for k, v in counts.items():
            chk.count(k, v)
        for o in obl:
            chk.oblige(*o)
        if broken:
            chk.broken.append("%s: %s" % (name, broken))
    chk.assumptions += ["characters matter to routing only by their code modulo the alphabet size",
                        "the load comparison of an insertion may come out either way"]
    return chk.finish("Routing functions interpreted for all words of up to two letters more than the tree is high, every load outcome, "
                      "replication and counter value; a query must reach a server of every word it matches.")
