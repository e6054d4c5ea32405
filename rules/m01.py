"""M01: the region directory of a metadata server.  Its operations are abstractly interpreted over a bounded history of
queries; coordinates, sizes and element sizes are symbolic, and how two regions lie to each other (disjoint, overlapping,
contained) is a trace partition that is only refined when the code asks.  Each answer is compared, byte by byte, with the
directory's contract; a checkpoint is restored into a fresh server and asked again."""
import os
import itertools
import multiprocessing as mp
import ir
from report import Check
from absint import Interp, Path, reg
from sym import Poly
from frontend import AnalysisBroken

PID = "M01"
c = Poly.c
INIT, FINI = "transfer_request_metadata_query_init", "transfer_request_metadata_query_finalize"
CKPT, LOOK, PARSE = ("transfer_request_metadata_query_checkpoint", "transfer_request_metadata_query_lookup_query_buf",
                     "transfer_request_metadata_query_parse")
LOCK = "metadata_query_mutex"


class Rel:
    """what a trace knows about pairs of (non-empty) regions: contained(a,b), overlap(a,b)"""

    @staticmethod
    def close(known):
        """consequences; None when contradictory"""
        k = dict(known)
        names = sorted({n for q in k for n in q[1:]})
        put = lambda q, v: (k.setdefault(q, v) == v)
        ch = True
        while ch:
            n0 = len(k)
            for a in names:
                if not put(("in", a, a), True) or not put(("ov", a, a), True):
                    return None
            for q, v in list(k.items()):
                t, a, b = q
                if t == "ov" and not put(("ov", b, a), v):
                    return None
                if t == "in" and v and not put(("ov", a, b), True):
                    return None
                if t == "ov" and not v and not put(("in", a, b), False):
                    return None
            for a in names:
                for b in names:
                    if k.get(("in", a, b)) is not True:
                        continue
                    for d in names:
                        if k.get(("in", b, d)) is True and not put(("in", a, d), True):
                            return None
                        if k.get(("ov", a, d)) is True and not put(("ov", b, d), True):
                            return None
                        if k.get(("ov", b, d)) is False and not put(("ov", a, d), False):
                            return None
                        if k.get(("in", a, d)) is False and not put(("in", b, d), False):
                            return None
                        if k.get(("in", d, a)) is True and not put(("in", d, b), True):
                            return None
            ch = len(k) != n0
        return k

    @staticmethod
    def ask(known, q):
        """-> [(answer, knowledge)]"""
        k = Rel.close({**known, ("ov", q[1], q[1]): True, ("ov", q[2], q[2]): True})
        if q in k:
            return [(k[q], k)]
        out = []
        for v in (True, False):
            n = Rel.close({**k, q: v})
            if n is not None:
                out.append((v, n))
        return out


class Rec:
    """one region of a query"""

    def __init__(self, obj, name, nd, server=0, dyn=False):
        self.obj = obj; self.name = name; self.nd = nd; self.server = server; self.dyn = dyn

    def __repr__(self):
        return "%d:%s%s" % (self.obj, self.name, "*" if self.dyn else "")


class Stop(Exception):
    """a trace goes on from memory it should not have used; what led there is the finding"""


class Dir(Interp):
    """the directory's data may only be touched with its lock held"""
    world = None

    def load(self, p, path, ty=None):
        self.world.touch(p, path)
        return Interp.load(self, p, path, ty)

    def store(self, p, v, path):
        self.world.touch(p, path)
        return Interp.store(self, p, v, path)


class World:
    def __init__(self, P):
        self.P = P
        self.num = {}
        for m in P.enums.values():
            self.num.update(m)
        self.I = Dir(P, ext=self.ext, oracle=self.oracle, no_summary=True, max_paths=4000, max_steps=400000)
        self.I.world = self
        self.op = None

    def upd(self, path, **kw):
        e = dict(path.extra); e.update(kw); path.extra = e

    def complain(self, path, what):
        if path.extra["bad"] is None:
            self.upd(path, bad=what)

    def at(self):
        return self.I.here.loc() if self.I.here is not None else "?"

    def touch(self, p, path):
        if self.op in (PARSE, LOOK, CKPT) and not path.extra["locked"]:
            r, _ = Interp.split(p)
            if r is not None and isinstance(r[1], tuple) and (
                    r[1][0] == "glob" and r[1][1].split("#")[0] not in ("stdout", "stderr") and not r[1][1].startswith(".str")
                    and LOCK not in r[1][1] and r in self.globs or r in path.extra["shared"]):
                self.complain(path, "%s: the directory is used without its lock" % self.at())

    @property
    def globs(self):
        return self._g

    # ---- regions
    def name(self, path, p, nd, part):
        """which region's coordinates a pointer holds"""
        v = [self.I.load(p + c(8 * d), path) for d in range(nd)]
        self.I.bound(p, 8 * nd, path)
        n = None
        for d, q in enumerate(v):
            at = next(iter(q.atoms()), None) if len(q.t) == 1 else None
            if not (isinstance(at, tuple) and at[0] == part and at[2] == d and q == Poly.a(at) and n in (None, at[1])):
                self.complain(path, "%s: what is compared is not the %s of one region" % (self.at(), {"O": "offset", "S": "size"}[part]))
                return None
            n = at[1]
        return n

    def pair(self, path, a, nd):
        n = []
        for o, s in ((a[0], a[1]), (a[2], a[3])):
            x, y = self.name(path, o, nd, "O"), self.name(path, s, nd, "S")
            if x is None or y is None:
                return None
            if x != y:
                self.complain(path, "%s: the offset of one region is taken with the size of another" % self.at())
                return None
            n.append(x)
        return n

    def ext(self, f, a, path, x):
        I = self.I
        if f in ("pthread_mutex_lock", "pthread_mutex_unlock"):
            r, _ = Interp.split(a[0])
            if r is None or LOCK not in str(r[1]):
                raise AnalysisBroken("another lock in the directory")
            want = f.endswith("_unlock")
            if path.extra["locked"] != want:
                self.complain(path, "%s: the lock is %s" % (x.loc(), "released while it is not held" if want else "taken while it is held"))
            self.upd(path, locked=not want)
            return c(0)
        if f in ("pthread_mutex_init", "pthread_mutex_destroy"):
            return c(0)
        if f in ("check_overlap", "PDC_region_overlap_detect", "detect_region_contained"):
            if f == "detect_region_contained":
                nd = a[4].const(); q = self.pair(path, a[:4], nd); kind = "in"
            else:
                nd = a[0].const(); q = self.pair(path, a[1:5], nd); kind = "ov"
            if q is None:
                if kind == "ov" and f != "check_overlap":
                    I.store(a[5], c(0), path); I.store(a[6], c(0), path)
                return c(0)
            if nd != path.extra["nd"].get(q[0]) or nd != path.extra["nd"].get(q[1]):
                self.complain(path, "%s: regions of another dimension are compared" % x.loc())
            outs = []
            for v, k in Rel.ask(path.extra["rel"], (kind, q[0], q[1])):
                p = path.copy()
                self.upd(p, rel=k)
                if f == "PDC_region_overlap_detect":
                    if v:
                        m = I.alloc(p, f, c(16 * nd))
                        r = Interp.split(m)[0]
                        for d in range(nd):
                            p.mem[(r, 8 * d)] = Poly.a(("cap_o",) + tuple(sorted(q)) + (d,))
                            p.mem[(r, 8 * (nd + d))] = Poly.a(("cap_s",) + tuple(sorted(q)) + (d,))
                        I.store(a[5], m, p); I.store(a[6], m + c(8 * nd), p)
                    else:
                        I.store(a[5], c(0), p); I.store(a[6], c(0), p)
                    outs.append((c(0), p))
                else:
                    outs.append((c(int(v)), p))
            return outs
        return None

    def oracle(self, path, core, a, b):
        d = a - b
        if any(isinstance(t, tuple) and t[0] in ("O", "cap_o", "cap_s", "undef", "ld", "ldx", "ldd", "call") for t in d.atoms()):
            if path.extra["bad"] or any(e[0] in ("uninit", "uaf", "oob", "badfree") for e in path.events):
                raise Stop(path)       # a complaint about this trace is already on record
            raise AnalysisBroken("%s: a decision on coordinates or on a value that is not known" % self.at())
        # element sizes and extents are positive
        co = d.t.values()
        if all(v > 0 for v in co):
            return core in ("gt", "ge", "ne")
        if all(v < 0 for v in co):
            return core in ("lt", "le", "ne")
        return None

    # ---- operations
    def runop(self, fn, args, path):
        self.op = fn
        p = path.copy(); p.events = []
        self.live0 = p.extra["live"]
        try:
            out = self.I.run_ended(self.P.fn(fn), args, p)
        except Stop as e:
            out = [(c(0), e.args[0])]
        self.op = None
        return out

    def start(self):
        p = Path()
        p.extra = {"bad": None, "locked": False, "rel": {}, "nd": {}, "live": frozenset(), "shared": frozenset(), "objs": (), "qs": (),
                   "loads": (), "roots": (), "ids": frozenset()}
        self._g = set()
        return self.init(p, None)

    def init(self, p, ck):
        self.upd(p, loads=tuple(Poly() for _ in range(self.servers)))
        out = self.runop(INIT, [c(self.servers), ck if ck is not None else c(0)], p)
        for _, q in out:
            for e in q.events:
                if e[0] == "store" and e[1][1][0] == "glob":
                    self._g.add(e[1])
        return [self.judge(q) for _, q in out]

    def judge(self, q, mine=()):
        """memory faults, locks, leaks"""
        ex = q.extra
        if ex["bad"]:
            return q, ex["bad"]
        for e in q.events:
            if e[0] == "endless":
                return q, "%s: %s does not end" % (e[2].loc(), e[1])
            if e[0] in ("uaf", "badfree"):
                return q, "%s: memory is %s after it was released" % (e[2].loc(), "used" if e[0] == "uaf" else "released again")
            if e[0] == "oob":
                return q, "%s: bytes %d..%d of a block of %d bytes are accessed" % (e[4].loc(), e[2], e[2] + e[3] - 1, q.size[e[1]])
            if e[0] == "uninit":
                return q, "%s: memory allocated by %s is used before it is set" % (e[3].loc(), e[1][1][1])
        if ex["locked"]:
            return q, "the lock is still held when the operation returns"
        live = {r for r in set(ex["live"]) | {Interp.split(e[1])[0] for e in q.events if e[0] == "alloc"} if r not in q.freed}
        cells = {}
        for (r, o), v in q.mem.items():
            t, _ = Interp.split(v) if isinstance(v, Poly) else (None, None)
            if t is not None:
                cells.setdefault(r, []).append(t)
        todo = list(self._g) + [Interp.split(m)[0] for m in mine] + [Interp.split(m)[0] for m in ex["roots"]]
        reach = set()
        while todo:
            r = todo.pop()
            if r in reach:
                continue
            reach.add(r)
            todo += cells.get(r, ())
        self.upd(q, live=frozenset(live), shared=frozenset(r for r in reach & live
                                                          if r not in {Interp.split(m)[0] for m in tuple(mine) + ex["roots"]}))
        lost = [r for r in live if r not in reach and not (isinstance(r[1], tuple) and r[1][1] == INIT and self.restarted)]
        if lost:
            return q, "memory allocated by %s is lost" % ", ".join(sorted({str(r[1][1]) for r in lost}))
        return q, None

    restarted = False

    def query(self, path, write, recs):
        """a query arrives; its answer is fetched later"""
        p = path.copy()
        nd = dict(p.extra["nd"])
        for r in recs:
            nd[r.name] = r.nd
        self.upd(p, nd=nd)
        h = ("msg", len(p.extra["qs"]))
        o = 0
        put = lambda v, n: p.mem.__setitem__((("reg", h), o), v)
        for r in recs:
            for v, n in ((c(r.obj), 8), (c(r.server), 4), (c(self.num["PDC_REGION_DYNAMIC"] if r.dyn else self.num["PDC_OBJ_STATIC"]), 1),
                         (c(r.nd), 4), (Poly.a(("unit", r.obj)), 8)):
                put(v, n); o += n
            for t in "OS":
                for d in range(r.nd):
                    put(Poly.a((t, r.name, d)), 8); o += 8
        p.size[("reg", h)] = o
        p.nreg += 1
        tot = ("total", p.nreg)
        res = []
        for v, q in self.runop(PARSE, [c(len(recs)), reg(h), c(int(write)), reg(tot)], p):
            q, bad = self.judge(q)
            if not bad:
                i = v.const()
                n = q.mem.get((("reg", tot), 0))
                n = n.const() if n is not None else None
                if i is None or i == 0 or i in q.extra["ids"]:
                    bad = "the id of a query's answer is not new"
                elif n is None:
                    bad = "the size of a query's answer is not reported"
                for k in [k for k in q.mem if k[0] == ("reg", h)]:
                    del q.mem[k]          # the caller releases the message
                q.freed = q.freed | {("reg", h)}
                if not bad:
                    self.upd(q, ids=q.extra["ids"] | {i}, qs=q.extra["qs"] + ({"id": i, "write": write, "recs": tuple(recs), "n": n,
                                                                               "done": False, "want": None},))
                    for q2, b2 in self.expect(q):
                        res.append((q2, b2))
                    continue
            res.append((q, bad))
        return res

    def expect(self, q):
        """the contract's answer for the last query, under every way the regions can still lie; servers of dynamically placed
        regions are left open ('?')"""
        e = q.extra["qs"][-1]
        todo = [(q.extra["rel"], dict(q.extra["objs"]), 0)]
        fin = []
        while todo:
            rel, objs, i = todo.pop()
            if i == len(e["recs"]) or not e["write"]:
                fin.append((rel, objs)); continue
            r = e["recs"][i]
            st = objs.get(r.obj, ())
            k = Rel.close({**rel, ("ov", r.name, r.name): True, **{("ov", s[0], s[0]): True for s in st}})
            if any(k.get(("in", r.name, s[0])) is True for s in st):
                todo.append((k, objs, i + 1)); continue
            open_ = [s[0] for s in st if ("in", r.name, s[0]) not in k]
            if open_:
                for v, kk in Rel.ask(k, ("in", r.name, open_[0])):
                    todo.append((kk, objs, i))
                continue
            o2 = dict(objs)
            o2[r.obj] = st + ((r.name, r.server if not r.dyn else "?"),)
            todo.append((k, o2, i + 1))
        for rel, objs in fin:
            # answers
            t2 = [(rel, ())]
            for r in e["recs"]:
                n2 = []
                for k, ans in t2:
                    opts = [(k, ())]
                    for s in objs.get(r.obj, ()):
                        o3 = []
                        for kk, got in opts:
                            for v, k3 in Rel.ask(kk, ("ov", r.name, s[0])):
                                o3.append((k3, got + ((s,) if v else ())))
                        opts = o3
                    n2 += [(kk, ans + (g,)) for kk, g in opts]
                t2 = n2
            for k, ans in t2:
                p = q.copy()
                qs = p.extra["qs"]
                w = dict(qs[-1]); w["want"] = ans
                self.upd(p, rel=k, objs=tuple(sorted(objs.items())), qs=qs[:-1] + (w,))
                yield p, None

    def implied_le(self, path, a, b, all_, seen=()):
        """a <= b follows from the decisions of the trace"""
        d = b - a
        if all(v >= 0 for v in d.t.values()):
            return True
        f = path.facts
        if f.get(("ge", d.key())) or f.get(("gt", d.key())) or f.get(("lt", d.key())) is False or f.get(("eq", d.key())):
            return True
        return any(m not in seen and m != a and m != b and self.implied_le(path, a, m, all_, seen + (a,)) and
                   self.implied_le(path, m, b, all_, seen + (a,)) for m in all_)

    def lookup(self, path, qid):
        """fetch the answer with this id"""
        p = path.copy()
        p.nreg += 1
        out = ("out", p.nreg)
        res = []
        for _, q in self.runop(LOOK, [c(qid), reg(out)], p):
            got = q.mem.get((("reg", out), 0))
            b, _ = Interp.split(got) if got is not None else (None, None)
            if b is not None:
                self.upd(q, roots=q.extra["roots"] + (got,))
            q, bad = self.judge(q)
            if not bad:
                e = next((x for x in q.extra["qs"] if x["id"] == qid and not x["done"]), None)
                if e is None:
                    if got is None or got.const() != 0:
                        bad = "a query's answer that does not exist (any more) is handed out"
                elif b is None:
                    bad = "the answer of a query is not found"
                else:
                    q, bad = self.compare(q, e, b)
                    self.upd(q, qs=tuple(dict(x, done=True) if x["id"] == qid else x for x in q.extra["qs"]))
            res.append((q, bad))
        return res

    def compare(self, q, e, b):
        M = lambda o: q.mem.get((b, o))
        total = 4 + sum(4 + len(a) * (4 + 16 * r.nd) for r, a in zip(e["recs"], e["want"]))
        what = "the answer to %s%s" % ("write" if e["write"] else "read", list(e["recs"]))
        if e["n"] != total or q.size.get(b) != total:
            return q, "%s is reported as %s bytes and allocated as %s, it has %d" % (what, e["n"], q.size.get(b), total)
        o = 0

        def cell(want, n, name):
            nonlocal o
            v = M(o)
            o += n
            if v is None or v != want:
                return "%s is wrong in %s" % (what, name)
            return None
        bad = cell(c(sum(len(a) for a in e["want"])), 4, "the total number of parts")
        objs = dict(q.extra["objs"])
        for r, a in zip(e["recs"], e["want"]):
            bad = bad or cell(c(len(a)), 4, "the number of parts of region %s" % r)
            for s in a:
                v = M(o)
                o += 4
                sv = v.const() if v is not None else None
                cur = dict(objs[r.obj])
                want = cur.get(s[0], s[1])
                if want == "?":
                    if sv is None or not 0 <= sv < self.servers:
                        bad = bad or "%s names no server for region %s" % (what, s[0])
                    else:
                        L = q.extra["loads"]
                        if not all(self.implied_le(q, L[sv], x, L) for x in L):
                            bad = bad or "region %s is placed on a server that does not have the least to store" % s[0]
                        size = Poly.a(("unit", r.obj))
                        for d in range(q.extra["nd"][s[0]]):
                            size = size * Poly.a(("S", s[0], d))
                        self.upd(q, loads=tuple(x + size if i == sv else x for i, x in enumerate(L)))
                        objs[r.obj] = tuple((n, sv if n == s[0] else t) for n, t in objs[r.obj])
                        self.upd(q, objs=tuple(sorted(objs.items())))
                elif sv != want:
                    bad = bad or "%s names server %s for region %s, which is on server %s" % (what, sv, s[0], want)
                pr = tuple(sorted((s[0], r.name)))
                for t, n in (("cap_o", "offset"), ("cap_s", "size")):
                    for d in range(r.nd):
                        bad = bad or cell(Poly.a((t,) + pr + (d,)), 8, "the %s of the overlap of %s and %s" % (n, r, s[0]))
        return q, bad

    def restart(self, path):
        """checkpoint, shut down, and restore into a new server"""
        p = path.copy()
        p.nreg += 1
        o1, o2 = ("ckp", p.nreg), ("cks", p.nreg)
        res = []
        for _, q in self.runop(CKPT, [reg(o1), reg(o2)], p):
            buf = q.mem.get((("reg", o1), 0)); n = q.mem.get((("reg", o2), 0))
            b, _ = Interp.split(buf) if buf is not None else (None, None)
            q, bad = self.judge(q, (buf,) if b is not None else ())
            n = n.const() if n is not None else None
            if not bad and (b is None or n is None or q.size.get(b) is None or q.size[b] < n):
                bad = "a checkpoint is reported larger than it is"
            if bad:
                res.append((q, bad)); continue
            # what is written is the reported number of bytes; a fresh process reads them into a block of its own
            q.nreg += 1
            nb = ("reg", ("file", q.nreg))
            for k in [k for k in q.mem if k[0] == b]:
                if k[1] < n:
                    q.mem[(nb, k[1])] = q.mem[k]
            q.size[nb] = n
            if any(isinstance(v, Poly) and Interp.split(v)[0] is not None for k, v in q.mem.items() if k[0] == nb):
                res.append((q, "a checkpoint contains addresses instead of what is stored there")); continue
            self.I.release(buf, q)
            self.restarted = True
            for q1, bad in [self.judge(x) for _, x in self.runop(FINI, [], q)]:
                if bad:
                    res.append((q1, bad)); continue
                self.upd(q1, qs=tuple(dict(x, done=True) for x in q1.extra["qs"]), live=frozenset(), ids=frozenset(),
                         shared=frozenset())
                for k in [k for k in q1.mem if k[0] in self._g]:
                    del q1.mem[k]
                for q2, bad in self.init(q1, reg(nb[1])):
                    if not bad:
                        q2.freed = q2.freed | {nb}
                        for k in [k for k in q2.mem if k[0] == nb]:
                            del q2.mem[k]
                    res.append((q2, bad))
        return res


def explore(args):
    name, servers, hist = args[:3]
    P = ir.program("server")
    W = World(P)
    W.servers = servers
    bad, st = {}, {"steps": 0, "traces": 0}
    try:
        if hist is None:
            tree(W, args[3], args[4], args[5], st, bad)
            return name, bad, st, None
        cur = [(q, b, ()) for q, b in W.start()]
        for op in hist:
            nx = []
            for q, b, tr in cur:
                if b:
                    bad.setdefault(b, tr); continue
                W.restarted = "restart" in tr
                if op[0] in ("W", "R"):
                    t = tr + ("%s%s" % ("write" if op[0] == "W" else "read", list(op[1])),)
                    out = W.query(q, op[0] == "W", op[1])
                    if not (len(op) > 2 and op[2] == "later"):
                        o2 = []
                        for p, b2 in out:
                            o2 += [(p, b2)] if b2 else W.lookup(p, p.extra["qs"][-1]["id"])
                        out = o2
                elif op[0] == "fetch":
                    t = tr + ("fetch %d" % op[1],)
                    ids = [x["id"] for x in q.extra["qs"]]
                    out = W.lookup(q, ids[op[1]] if op[1] < len(ids) else 4711)
                else:
                    t = tr + ("restart",)
                    out = W.restart(q)
                for p, b2 in out:
                    st["steps"] += 1
                    nx.append((p, b2, t))
            cur = nx
            if len(cur) > 60000:
                raise AnalysisBroken("too many ways regions can lie")
        for q, b, tr in cur:
            st["traces"] += 1
            if b:
                bad.setdefault(b, tr)
        return name, bad, st, None
    except AnalysisBroken as e:
        return name, bad, st, str(e)


def configs(deep):
    out = []
    for nd in (1, 2, 3):
        A, B, C, D = (Rec(71, n, nd, s) for n, s in (("A", 2), ("B", 1), ("C", 0), ("D", 2)))
        X, Y = Rec(72, "X", nd, 1), Rec(72, "Y", nd, 2)
        U = Rec(79, "U", nd, 1)
        t = "%dD: " % nd
        out += [(t + "write, read", 3, [("W", (A,)), ("R", (B,)), ("R", (A,))]),
                (t + "unknown objects", 3, [("R", (U,)), ("W", (A,)), ("R", (U, A)), ("R", (B, U))]),
                (t + "two writes", 3, [("W", (A,)), ("W", (B,)), ("R", (C,))]),
                (t + "two writes in one query", 3, [("W", (A, B)), ("R", (C, X))]),
                (t + "the same region again", 3, [("W", (A, X)), ("W", (A,)), ("W", (X, A)), ("R", (A,))]),
                (t + "two objects", 3, [("W", (A, X)), ("W", (B, Y)), ("R", (B, X))]),
                (t + "restart", 3, [("W", (A,)), ("restart",), ("R", (B,)), ("W", (C,))]),
                (t + "restart with several regions and objects", 3, [("W", (A, B, X)), ("restart",), ("R", (A, B)), ("R", (Y, A))])]
        if nd < 3 or deep:
            out.append((t + "restart, then writes", 3, [("W", (A, X)), ("restart",), ("W", (B,)), ("W", (U,)), ("R", (A, U)), ("restart",),
                                                        ("R", (C,)), ("R", (U, X))]))
        if nd == 1 or deep:
            out.append((t + "three writes", 3, [("W", (A,)), ("W", (B,)), ("W", (C,)), ("R", (D,))]))
            out.append((t + "three writes, restart", 3, [("W", (A, B, C)), ("restart",), ("R", (A,)), ("R", (C,))]))
    A, B, C, X = Rec(71, "A", 1, 2), Rec(71, "B", 1, 1), Rec(71, "C", 1, 0), Rec(72, "X", 2, 1)
    L = "later"
    out += [("nothing asked", 3, [("W", ()), ("R", ()), ("W", (A,)), ("R", ())]),
            ("restart of an empty directory", 3, [("restart",), ("W", (A,)), ("R", (B,))]),
            ("three objects of different dimension, restart", 3, [("W", (A, X, Rec(73, "Z", 3, 0))), ("restart",),
                                                                 ("R", (A,)), ("R", (X, Rec(73, "Z2", 3, 0)))]),
            ("restart twice", 2, [("W", (A, X)), ("restart",), ("restart",), ("R", (X, A))])]
    for perm in itertools.permutations(range(3)):
        out.append(("answers fetched in the order %s" % (perm,), 3,
                    [("W", (A,), L), ("R", (X,), L), ("R", (A, X), L)] + [("fetch", k) for k in perm] +
                    [("fetch", perm[0]), ("fetch", perm[2]), ("fetch", 9), ("W", (X,))]))
    for k in (0, 1):
        out.append(("an answer left behind (%d)" % k, 3, [("W", (A,), L), ("R", (X,), L), ("fetch", k), ("W", (X,), L), ("fetch", 2),
                                                          ("fetch", 1 - k), ("R", (A,)), ("fetch", 2)]))
    for perm in ((0, 2), (1, 2), (2, 1), (2, 0), (0, 1), (1, 0)):
        k, j = perm
        rest = [x for x in range(3) if x not in perm]
        out.append(("answers %d and %d fetched among new queries" % perm, 3,
                    [("W", (A,), L), ("R", (X,), L), ("R", (A, X), L), ("fetch", k), ("R", (A,), L), ("fetch", j), ("W", (X,), L),
                     ("fetch", rest[0]), ("fetch", 3), ("fetch", 4), ("R", (X,), L), ("fetch", 5), ("fetch", 5)]))
    for n in (1, 2, 3):
        d = [Rec(71, x, 1, 7, True) for x in "ABCD"] + [Rec(72, "X", 2, 7, True)]
        out.append(("placement on %d servers" % n, n, [("W", (d[0],)), ("W", (d[1],)), ("W", (d[2],)), ("R", (d[0],))]))
        if n < 3 or deep:
            out.append(("placement of five on %d servers" % n, n, [("W", (x,)) for x in d[:3] + d[4:]] + [("W", (Rec(73, "Y", 1, 7, True),))]))
        out.append(("placement of several at once on %d servers" % n, n, [("W", tuple(d[:2])), ("W", (d[4],)), ("R", tuple(d[:2]))]))
        out.append(("placement on %d servers, two objects" % n, n, [("W", (d[0],)), ("W", (d[4],)), ("W", (d[1],)), ("R", (d[4],))]))
        out.append(("placement and fixed servers on %d servers" % n, n, [("W", (d[0],)), ("W", (Rec(71, "F", 1, 0),)), ("W", (d[1],)),
                                                                         ("W", (d[4],))]))
    return out


def systematic(deep):
    """every history over a small alphabet"""
    A, B, X, U = Rec(71, "A", 1, 2), Rec(71, "B", 1, 1), Rec(72, "X", 2, 0), Rec(79, "U", 1, 1)
    al = [("W", (A,)), ("W", (B,)), ("W", (A, X)), ("R", (B,)), ("W", (U,), "later"), ("R", (A,), "later"), ("fetch", 0), ("fetch", 1),
          ("restart",)]
    n = 5 if deep else 4
    return [("all histories of %d: %s, %s" % (n, i, j), 3, None, (al[i], al[j]), al, n) for i in range(len(al)) for j in range(len(al))]


def tree(W, pre, al, n, st, bad):
    def step(q, tr, op):
        W.restarted = "restart" in tr
        if op[0] in ("W", "R"):
            t = tr + ("%s%s" % ("write" if op[0] == "W" else "read", list(op[1])),)
            out = W.query(q, op[0] == "W", op[1])
            if len(op) < 3:
                o2 = []
                for p, b2 in out:
                    o2 += [(p, b2)] if b2 else W.lookup(p, p.extra["qs"][-1]["id"])
                out = o2
        elif op[0] == "fetch":
            t = tr + ("fetch %d" % op[1],)
            ids = [x["id"] for x in q.extra["qs"]]
            out = W.lookup(q, ids[op[1]] if op[1] < len(ids) else 4711)
        else:
            t = tr + ("restart",)
            out = W.restart(q)
        return t, out
    todo = [(q, (), 0) for q, b in W.start() if not b]
    while todo:
        q, tr, d = todo.pop()
        if d == n:
            st["traces"] += 1
            continue
        for op in (pre[d:d + 1] if d < len(pre) else al):
            if op[0] == "fetch" and not any(len(x) > 2 for x in (pre if d < len(pre) else al)):
                continue
            t, out = step(q, tr, op)
            for p, b in out:
                st["steps"] += 1
                if b:
                    bad.setdefault(b, t)
                else:
                    todo.append((p, t, d + 1))


def run():
    chk = Check(PID, "for every history of queries: a written region is recorded once, unless it lies inside a recorded one; an answer "
                "lists, per region asked and in order, exactly the recorded regions it overlaps with their server and the overlap, its "
                "size is as reported; it is handed out once; dynamic placement takes a least loaded server; a checkpoint restores all")
    P = ir.program("server")
    for f in (INIT, FINI, CKPT, LOOK, PARSE):
        P.fn(f)
    deep = chk.tier == "thorough"
    cf = configs(deep) + systematic(deep)
    chk.analysed = {"operations": [INIT, FINI, CKPT, LOOK, PARSE], "histories": len(cf)}
    chk.assumptions += ["check_overlap, PDC_region_overlap_detect and detect_region_contained meet their contract (decided by R01)",
                        "regions are not empty and the regions of one object have one dimensionality",
                        "the message has the layout the client packs (decided by T01)"]
    ctx = mp.get_context("fork")
    with ctx.Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(explore, cf, chunksize=1)
    for name, bad, st, broken in res:
        for k, v in st.items():
            chk.count(k, v)
        chk.count("histories")
        if broken:
            chk.broken.append("%s: %s" % (name, broken))
        chk.oblige(not bad, "directory:%s" % name, "%s: %s" % (name, "; ".join(
            "after %s: %s" % (", ".join(t), w) for w, t in sorted(bad.items())[:3])), name)
    chk.floor("histories", 25)
    chk.floor("steps", 300)
    return chk.finish("Histories of queries, fetches and restarts were abstractly interpreted with symbolic coordinates; the relation "
                      "of two regions is split on demand and closed under its laws.")
