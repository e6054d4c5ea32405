"""R03: the server's cached and stored copies of region data stay coherent: a write reaches every cached or
stored copy of the elements it touches and is kept in full when no copy holds it all; a read takes its data
from a copy that holds it, after older cached data was flushed."""
import ir
from report import Check
from absint import Interp, Path, reg
from sym import Poly
import copies
from copies import Layout
from frontend import AnalysisBroken

PID = "R03"
U = Poly.a(("in", "unit"))


def A(n, k):
    return Poly.a(("in", n, k))


def vec(n, nd):
    return [A(n, k) for k in range(nd)]


def gname(P, n):
    for g in P.globals:
        if g.split("#")[0] == n:
            return g
    raise AnalysisBroken("global %s not found" % n)


class Regions:
    """models of the region predicates (verified by R01) over the request and K symbolic regions"""

    def __init__(self, nd, K, arrays):
        self.nd = nd; self.K = K
        self.arrays = arrays      # k -> (offset pointer, size pointer); "req" likewise
        self.bad = []

    def which(self, off, size):
        for k, (o, s) in self.arrays.items():
            if off == o and size == s:
                return k
        return None

    def state(self, path, k):
        return dict(path.extra or ()).get(k)

    def with_(self, path, k, v):
        q = path.copy()
        d = dict(path.extra or ()); d[k] = v
        q.extra = tuple(sorted(d.items(), key=repr))
        return q

    def _pair(self, a):
        p, q = self.which(a[0], a[1]), self.which(a[2], a[3])
        if p is None or q is None or {p, q} != {"req", p if p != "req" else q} or p == q:
            return None
        return p, q

    def overlap(self, path, k):
        """list of (path, bool)"""
        st = self.state(path, k)
        if st:
            return [(path, st[0])]
        # (overlap, contained, contains)
        return [(self.with_(path, k, (True, None)), True), (self.with_(path, k, (False, False)), False)]

    def contained(self, path, k):
        st = self.state(path, k)
        if st and st[1] is not None:
            return [(path, st[1])]
        return [(self.with_(path, k, (True, True)), True),
                (self.with_(path, k, ((st[0] if st else None), False)), False)]

    def ext(self, f, args, path, x):
        nd = args[0].const() if args else None
        if f == "PDC_region_overlap_detect":
            pr = self._pair(args[1:5])
            if pr is None or nd != self.nd:
                self.bad.append("%s:%s: overlap is computed from mixed regions or dimensions" % (x.fn.name, x.line()))
                return []
            k = pr[0] if pr[1] == "req" else pr[1]
            out = []
            st = self.state(path, k)
            opts = self.overlap(path, k) if not (st and st[0] is None) else [
                (self.with_(path, k, (True, False)), True), (self.with_(path, k, (False, False)), False)]
            for q, t in opts:
                q = q.copy()
                for i, n in ((5, "OO"), (6, "OS")):
                    r, o = Interp.split(args[i])
                    q.mem[(r, o.const())] = reg((n, k)) if t else Poly.c(0)
                out.append((Poly.c(0), q))
            return out
        if f == "detect_region_contained":
            p, q = self.which(args[0], args[1]), self.which(args[2], args[3])
            if p != "req" or q in (None, "req") or args[4].const() != self.nd:
                self.bad.append("%s:%s: containment of the request in a stored region is decided from other regions" %
                                (x.fn.name, x.line()))
                return []
            return [(Poly.c(int(t)), pth) for pth, t in self.contained(path, q)]
        if f == "check_overlap":
            pr = self._pair(args[1:5])
            if pr is None or nd != self.nd:
                self.bad.append("%s:%s: overlap is computed from mixed regions or dimensions" % (x.fn.name, x.line()))
                return []
            k = pr[0] if pr[1] == "req" else pr[1]
            return [(Poly.c(int(t)), pth) for pth, t in self.overlap(path, k)]
        return None

    def cell(self, r, off):
        if isinstance(r[1], tuple) and r[1][0] in ("OO", "OS") and off % 8 == 0:
            return A({"OO": "oo", "OS": "os"}[r[1][0]] + str(r[1][1]), off // 8)
        return None


def both(*fs):
    def ext(f, args, path, x):
        for g in fs:
            r = g(f, args, path, x)
            if r is not None:
                return r
        return None
    return ext


def fmtst(ex):
    return ", ".join("region %s: %s" % (k, "disjoint" if not v[0] else "contains the request" if v[1] else
                                        "overlaps") for k, v in (ex or ()) if isinstance(v, tuple)) or "no regions"


def run():
    chk = Check(PID, "every cached/stored region the written region overlaps receives exactly the common elements; the "
                "write is registered/appended in full exactly when no region contains it; reads come from a region that "
                "holds them or, after a flush, from storage; flushes write every cached region")
    chk.assumptions += ["region predicates and sub-region copies behave as decided by R01 and R02", "issued I/O succeeds",
                        "lists of 0 to 2 cached or stored regions (each iteration treats one region)"]
    S = ir.program("server")
    L = Layout(S)
    FILE = reg("FILE")
    chk.analysed = {"functions": ["PDC_transfer_request_data_write_out", "PDC_region_cache_register", "PDC_region_fetch",
                                  "PDC_region_cache_flush_by_pointer", "PDC_Server_data_write_out",
                                  "PDC_Server_data_read_from", "PDC_Server_posix_write"], "dimensions": [1, 2, 3]}

    def report(fn, bad, label):
        chk.oblige(not bad, "%s:%s" % (fn.name, label), "%s (%s, %s): %s" % (fn.where(), fn.name, label, bad[0] if bad else ""),
                   "%s %s" % (fn.name, label))

    def request(path, nd):
        L.put(path, "RI", "pdc_region_info", ndim=Poly.c(nd), offset=reg("RO"), size=reg("RS"), unit=U)
        for k in range(nd):
            path.mem[(("reg", "RO"), 8 * k)] = A("ro", k)
            path.mem[(("reg", "RS"), 8 * k)] = A("rs", k)

    def volume(v):
        p = U
        for x in v:
            p = p * x
        return p

    def cache(path, nd, K, other=True, unit=U):
        """object cache list: one other object, then the requested object with K regions"""
        nodes = (["OBJX"] if other else []) + ["OBJ"]
        for i, n in enumerate(nodes):
            L.put(path, n, "pdc_obj_cache", next=reg(nodes[i + 1]) if i + 1 < len(nodes) else Poly.c(0),
                  obj_id=Poly.a(("in", "id")) if n == "OBJ" else Poly.a(("in", "otherid")), ndim=Poly.c(nd), dims=reg(n + "D"),
                  region_cache=(reg(("RC", 0)) if K and n == "OBJ" else Poly.c(0)),
                  region_cache_end=(reg(("RC", K - 1)) if K and n == "OBJ" else Poly.c(0)),
                  region_cache_size=Poly.c(K if n == "OBJ" else 0))
        for k in range(K):
            L.put(path, ("RC", k), "pdc_region_cache", region_cache_info=reg(("CI", k)),
                  next=reg(("RC", k + 1)) if k + 1 < K else Poly.c(0))
            L.put(path, ("CI", k), "pdc_region_info", ndim=Poly.c(nd), offset=reg(("CO", k)), size=reg(("CS", k)),
                  buf=reg(("CB", k)), unit=unit)
            for d in range(nd):
                path.mem[(("reg", ("CO", k)), 8 * d)] = A("co%d" % k, d)
                path.mem[(("reg", ("CS", k)), 8 * d)] = A("cs%d" % k, d)
        g = gname(S, "obj_cache_list")
        path.mem[(("reg", ("glob", g)), 0)] = reg(nodes[0])
        path.mem[(("reg", ("glob", gname(S, "obj_cache_list_end"))), 0)] = reg(nodes[-1])
        # ids differ
        Interp._learn(path, "eq", Poly.a(("in", "id")) - Poly.a(("in", "otherid")), False)
        return g

    quiet = lambda names: (lambda f, args, path, x: Poly.c(0) if f in names else None)
    LOCKS = quiet({"pthread_mutex_lock", "pthread_mutex_unlock", "gettimeofday", "free", "MPI_Comm_rank"})

    # ---- write into the cache
    def cache_write():
        fn = S.fn("PDC_transfer_request_data_write_out")
        for nd in (1, 2, 3):
            for K in (0, 1, 2):
                p = Path(); request(p, nd); cache(p, nd, K)
                R = Regions(nd, K, dict([("req", (reg("RO"), reg("RS")))] + [(k, (reg(("CO", k)), reg(("CS", k)))) for k in range(K)]))

                def regext(f, args, path, x):
                    if f == "PDC_region_cache_register":
                        path.ev("register", args)
                        return Poly.c(0)
                I = Interp(S, cell=R.cell, ext=both(R.ext, regext, LOCKS))
                ID, OD = Poly.a(("in", "id")), Poly.a(("in", "ondim"))
                res = I.run(fn, [ID, OD, reg("OD"), reg("RI"), reg("BUF"), U], p)
                bad = list(R.bad)
                for rv, q in res:
                    chk.count("traces")
                    st = dict(q.extra or ())
                    Sx = copies.equalities(q.facts)
                    got = copies.compose(q.events, Sx, Interp.split, lambda r: False, bad.append)
                    want = []
                    zero = False
                    for k in range(K):
                        v = st.get(k)
                        if v is None:
                            bad.append("cached region %d is not examined although the request may overlap it (%s)" % (k, fmtst(q.extra)))
                            continue
                        if v[0] is not False:
                            want.append((k, copies.block(
                                reg(("CB", k)), vec("cs%d" % k, nd), [a - b for a, b in zip(vec("oo%d" % k, nd), vec("co%d" % k, nd))],
                                reg("BUF"), vec("rs", nd), [a - b for a, b in zip(vec("oo%d" % k, nd), vec("ro", nd))],
                                vec("os%d" % k, nd), U, Sx)))
                    if bad:
                        continue
                    gk = sorted(repr(c.key()) for c in got)
                    wk = sorted(repr(c.key()) for _, c in want)
                    if gk != wk:
                        miss = [k for k, c in want if repr(c.key()) not in gk]
                        bad.append("cached region %s does not receive exactly the common part (%s)%s" %
                                   (miss[0] if miss else "", fmtst(q.extra), "".join("; did %r" % c for c in got[:1])))
                        continue
                    regs = [e for e in q.events if e[0] == "register"]
                    cont = any(v[1] for v in st.values())
                    if len(regs) != (0 if cont else 1):
                        bad.append("a write with %s is registered as a new cached region %d times" % (fmtst(q.extra), len(regs)))
                        continue
                    if regs:
                        w = [ID, OD, reg("OD"), reg("BUF"), volume(vec("rs", nd)), reg("RO"), reg("RS"), Poly.c(nd), U]
                        for i, (g, e) in enumerate(zip(regs[0][1], w)):
                            if Sx(g) != Sx(e):
                                bad.append("the new cached region is registered with argument %d = %r, expected %r" % (i, g, e))
                report(fn, bad, "%dD with %d cached regions" % (nd, K))
    with chk.part("cache write"):
        cache_write()

    # ---- register
    def register():
        fn = S.fn("PDC_region_cache_register")
        ID = Poly.a(("in", "id"))
        for case in ("new object", "first object", "object without regions", "object with regions"):
            nd = 2
            p = Path(); bad = []
            K = 1 if case == "object with regions" else 0
            g = cache(p, nd, K)
            if case == "new object":
                n = L.off("pdc_obj_cache", "next")
                p.mem[(("reg", "OBJX"), n)] = Poly.c(0)
                p.mem[(("reg", ("glob", gname(S, "obj_cache_list_end"))), 0)] = reg("OBJX")
            if case == "first object":
                p.mem[(("reg", ("glob", g)), 0)] = Poly.c(0)
            tc = ("reg", ("glob", gname(S, "total_cache_size")))
            p.mem[(tc, 0)] = Poly.a(("in", "total"))
            SZ = Poly.a(("in", "bufsize"))

            def fl(f, args, path, x):
                if f == "PDC_region_cache_flush_all":
                    path.ev("flushall"); return Poly.c(0)
            I = Interp(S, ext=both(fl, LOCKS))
            res = I.run(fn, [ID, Poly.c(nd), reg("OD"), reg("BUF"), SZ, reg("RO"), reg("RS"), Poly.c(nd), U], p)
            for rv, q in res:
                chk.count("traces")
                # walk the list
                cur = q.mem.get((("reg", ("glob", g)), 0)); seen = []
                while cur is not None and cur.const() != 0 and len(seen) < 5:
                    seen.append(cur); cur = L.get(q, I, cur, "pdc_obj_cache", "next")
                if cur is None or cur.const() != 0:
                    bad.append("the list of cached objects is not terminated"); continue
                objs = [o for o in seen if L.get(q, I, o, "pdc_obj_cache", "obj_id") == ID]
                if len(objs) != 1 or len(seen) != (1 if case == "first object" else 2):
                    bad.append("the object is not on the list of cached objects exactly once"); continue
                o = objs[0]
                rc = L.get(q, I, o, "pdc_obj_cache", "region_cache"); rs = []
                while rc.const() != 0 and len(rs) < 5:
                    rs.append(rc); rc = L.get(q, I, rc, "pdc_region_cache", "next")
                if rc.const() != 0 or len(rs) != K + 1:
                    bad.append("the region is not appended to the object's cached regions"); continue
                if L.get(q, I, o, "pdc_obj_cache", "region_cache_size").const() != K + 1:
                    bad.append("the count of cached regions is not kept"); continue
                if L.get(q, I, o, "pdc_obj_cache", "region_cache_end") != rs[-1]:
                    bad.append("the end of the object's cached regions is not the new region"); continue
                inf = L.get(q, I, rs[-1], "pdc_region_cache", "region_cache_info")
                gt = lambda fld: L.get(q, I, inf, "pdc_region_info", fld)
                if gt("ndim").const() != nd or gt("unit") != U:
                    bad.append("the cached region's dimensions or element size are wrong"); continue
                cps = [copies.Copy(e[1], e[2], e[3], e.loops) for e in q.events if e[0] == "memcpy"]
                for fld, src, n in (("offset", "RO", Poly.c(8 * nd)), ("size", "RS", Poly.c(8 * nd)), ("buf", "BUF", SZ)):
                    ok = any(c.d == gt(fld) and c.s == reg(src) and copies.is_run(c) and copies.volume(c) == n for c in cps)
                    if not ok:
                        ok = n.const() and all(I.load(gt(fld) + Poly.c(8 * i), q) == I.load(reg(src) + Poly.c(8 * i), q)
                                               for i in range(nd))
                    if not ok:
                        bad.append("the cached region's %s is not a complete copy of the request's" % fld)
                al = {repr(e[1].key()): e[2] for e in q.events if e[0] == "alloc"}
                for fld, n in (("buf", SZ),):
                    if al.get(repr(gt(fld).key())) != n:
                        bad.append("the cached region's %s is allocated with %r bytes" % (fld, al.get(repr(gt(fld).key()))))
                fa = [e for e in q.events if e[0] == "flushall"]
                t = q.mem.get((tc, 0))
                if t is None or t - Poly.a(("in", "total")) != SZ:
                    bad.append("the amount of cached data does not grow by the region's size")
            report(fn, bad, case)
    with chk.part("register"):
        register()

    # ---- read through the cache
    def fetch():
        fn = S.fn("PDC_region_fetch")
        ID, OD = Poly.a(("in", "id")), Poly.a(("in", "ondim"))
        for nd in (1, 2, 3):
            for K in (0, 1, 2):
                p = Path(); request(p, nd); cache(p, nd, K)
                R = Regions(nd, K, dict([("req", (reg("RO"), reg("RS")))] + [(k, (reg(("CO", k)), reg(("CS", k)))) for k in range(K)]))

                def io(f, args, path, x):
                    if f == "PDC_region_cache_flush_by_pointer":
                        path.ev("flush", args); return Poly.c(0)
                    if f == "PDC_Server_transfer_request_io":
                        path.ev("io", args); return Poly.c(0)
                I = Interp(S, cell=R.cell, ext=both(R.ext, io, LOCKS))
                res = I.run(fn, [ID, OD, reg("OD"), reg("RI"), reg("BUF"), U], p)
                bad = list(R.bad)
                for rv, q in res:
                    chk.count("traces")
                    st = dict(q.extra or ())
                    Sx = copies.equalities(q.facts)
                    got = copies.compose(q.events, Sx, Interp.split, lambda r: False, bad.append)
                    fl = [e for e in q.events if e[0] in ("flush", "io")]
                    if got:
                        k = next((k for k in range(K) if Interp.split(got[0].s)[0] == ("reg", ("CB", k))), None)
                        if k is None or not (st.get(k) and st[k][1]):
                            bad.append("data is taken from a cached region that was not found to contain the request"); continue
                        w = copies.block(reg("BUF"), vec("rs", nd), [a - b for a, b in zip(vec("oo%d" % k, nd), vec("ro", nd))],
                                         reg(("CB", k)), vec("cs%d" % k, nd),
                                         [a - b for a, b in zip(vec("oo%d" % k, nd), vec("co%d" % k, nd))], vec("os%d" % k, nd), U, Sx)
                        if len(got) != 1 or got[0].key() != w.key():
                            bad.append("%r, expected %r" % (got[-1], w))
                        if any(e[0] == "io" for e in fl):
                            bad.append("data found in the cache is overwritten by a read from storage")
                        continue
                    kinds = [e[0] for e in fl]
                    if kinds not in ((["flush", "io"],) if K else (["flush", "io"], ["io"])):
                        bad.append("a read the cache cannot serve (%s) does not flush the object and then read storage (%s)" %
                                   (fmtst(q.extra), kinds)); continue
                    if "flush" in kinds and fl[0][1] != [ID, reg("OBJ")]:
                        bad.append("another object is flushed before the read")
                    w = [ID, OD, reg("OD"), reg("RI"), reg("BUF"), U, Poly.c(0)]
                    if fl[-1][1] != w:
                        bad.append("storage is read with %r, expected %r" % (fl[-1][1], w))
                report(fn, bad, "%dD with %d cached regions" % (nd, K))
    with chk.part("fetch"):
        fetch()

    # ---- flush
    def flush():
        fn = S.fn("PDC_region_cache_flush_by_pointer")
        ID = Poly.a(("in", "id"))
        for nd in (1, 2, 3):
            for K in (0, 1, 2):
                for M in ((1, 2)[:K] if nd == 1 and K else (0,)):
                    p = Path(); cache(p, nd, K, other=False)
                    tc = ("reg", ("glob", gname(S, "total_cache_size")))
                    p.mem[(tc, 0)] = Poly.a(("in", "total"))

                    def mr(f, args, path, x, M=M, K=K):
                        if f == "merge_requests":
                            ok = args[2].const() == K and args[7] == U
                            st = [I.load(args[0] + Poly.c(8 * i), path) for i in range(K)]
                            en = [I.load(args[1] + Poly.c(8 * i), path) for i in range(K)]
                            bf = [I.load(args[3] + Poly.c(8 * i), path) for i in range(K)]
                            path.ev("merge", ok, st, en, bf)
                            for a, n in ((4, "NS"), (5, "NE"), (6, "NB")):
                                r, o = Interp.split(args[a]); path.mem[(r, o.const())] = reg(n)
                            r, o = Interp.split(args[8]); path.mem[(r, o.const())] = Poly.c(M)
                            for i in range(M):
                                path.mem[(("reg", "NS"), 8 * i)] = A("ns", i); path.mem[(("reg", "NE"), 8 * i)] = A("ne", i)
                                path.mem[(("reg", "NB"), 8 * i)] = reg(("MB", i))
                            return Poly.c(0)
                        if f == "qsort":
                            path.ev("qsort", args); return Poly.c(0)
                        if f == "PDC_Server_transfer_request_io":
                            inf = args[3]
                            g = lambda fld: L.get(path, I, inf, "pdc_region_info", fld)
                            path.ev("io", args, [I.load(g("offset") + Poly.c(8 * i), path) for i in range(nd)],
                                    [I.load(g("size") + Poly.c(8 * i), path) for i in range(nd)])
                            return Poly.c(0)
                    I = Interp(S, ext=both(mr, LOCKS))
                    res = I.run(fn, [ID, reg("OBJ")], p)
                    bad = []
                    for rv, q in res:
                        chk.count("traces")
                        io = [e for e in q.events if e[0] == "io"]
                        mg = [e for e in q.events if e[0] == "merge"]
                        if mg:
                            w = [([A("ns", i)], [A("ne", i) - A("ns", i)], reg(("MB", i))) for i in range(M)]
                            for e in mg:
                                if not e[1] or e[2] != [A("co%d" % k, 0) for k in range(K)] or \
                                        e[3] != [A("co%d" % k, 0) + A("cs%d" % k, 0) for k in range(K)] or \
                                        e[4] != [reg(("CB", k)) for k in range(K)]:
                                    bad.append("cached regions are merged with other bounds or buffers than their own")
                        else:
                            w = [(vec("co%d" % k, nd), vec("cs%d" % k, nd), reg(("CB", k))) for k in range(K)]
                        if [(e[2], e[3], e[1][4]) for e in io] != w:
                            bad.append("flushing %d cached regions writes %d of them, or other data" % (K, len(io))); continue
                        for e in io:
                            a = e[1]
                            if a[0] != ID or a[1].const() != nd or a[2] != reg("OBJD") or a[5] != U or a[6].const() != 1:
                                bad.append("a cached region is flushed with object, shape or element size of something else: %r" % a)
                        if L.get(q, I, reg("OBJ"), "pdc_obj_cache", "region_cache").const() != 0 or \
                                L.get(q, I, reg("OBJ"), "pdc_obj_cache", "region_cache_size").const() != 0:
                            bad.append("flushed regions stay in the cache")
                    report(fn, bad, "%dD with %d cached regions%s" % (nd, K, ", merged into %d" % M if M else ""))
    with chk.part("flush"):
        flush()

    # ---- region files
    EOF = Poly.a(("in", "EOF"))

    def stored(path, nd, K):
        L.put(path, "DR", "data_server_region_t", obj_id=Poly.a(("in", "id")), fd=Poly.a(("in", "fd")),
              region_storage_head=reg(("SR", 0)) if K else Poly.c(0), storage_location=reg("LOC"),
              prev=reg("DRX"), next=reg("DRY"))
        # the object's record sits between those of two others
        for n, a, b in (("DRX", "DRY", "DR"), ("DRY", "DR", None)):
            L.put(path, n, "data_server_region_t", obj_id=Poly.a(("in", "other" + n)), fd=Poly.a(("in", "fd" + n)),
                  region_storage_head=Poly.c(0), storage_location=reg("LOC" + n), prev=reg(a), next=reg(b) if b else Poly.c(0))
            Interp._learn(path, "eq", Poly.a(("in", "id")) - Poly.a(("in", "other" + n)), False)
        path.mem[(("reg", ("glob", gname(S, "dataserver_region_g"))), 0)] = reg("DRX")
        for k in range(K):
            L.put(path, ("SR", k), "region_list_t", ndim=Poly.c(nd), start=vec("st%d" % k, nd), count=vec("ct%d" % k, nd),
                  offset=A("off", k), data_size=volume(vec("ct%d" % k, nd)), unit_size=U,
                  next=reg(("SR", k + 1)) if k + 1 < K else Poly.c(0),
                  prev=reg(("SR", (k - 1) % K)))

    so, co = L.off("region_list_t", "start"), L.off("region_list_t", "count")
    fixed = {n: Poly.c(0) for n in ("close", "strcpy", "llvm.memcpy", "snprintf", "__strcpy_chk", "stpcpy", "strncpy",
                                    "PDC_Server_unregister_obj_region_by_pointer", "PDC_Server_unregister_obj_region")}

    def dataserver(name, write):
        fn = S.fn(name)
        ID = Poly.a(("in", "id"))
        for sieve in (1, 0):
            for nd in (1, 2, 3):
                for K in (0, 1, 2):
                    if K == 2 and nd == 3:
                        continue
                    p = Path(); request(p, nd); stored(p, nd, K)
                    p.mem[(("reg", ("glob", gname(S, "data_sieving_g"))), 0)] = Poly.c(sieve)
                    R = Regions(nd, K, dict([("req", (reg("RO"), reg("RS")))] + [
                        (k, (reg(("SR", k)) + Poly.c(so), reg(("SR", k)) + Poly.c(co))) for k in range(K)]))

                    def look(f, args, path, x):
                        if f == "PDC_Server_register_obj_region_by_pointer":
                            r, o = Interp.split(args[0])
                            if path.mem.get((r, o.const())) != reg("DR"):
                                R.bad.append("the file of another object's regions is used")
                            return Poly.c(0)
                        if f in ("free", "PDC_free"):
                            path.ev("free", args[0]); return Poly.c(0)
                    I = Interp(S, cell=R.cell, ext=both(R.ext, look, copies.file_ext(FILE, EOF, fixed), LOCKS))
                    res = I.run(fn, [ID, reg("RI"), reg("BUF"), U], p)
                    bad = list(R.bad)
                    for rv, q in res:
                        chk.count("traces")
                        st = dict(q.extra or ())
                        Sx = copies.equalities(q.facts)
                        got = copies.compose(q.events, Sx, Interp.split, lambda r: isinstance(r[1], tuple) and r[1][0] == "heap", bad.append)
                        want = []
                        for k in range(K):
                            v = st.get(k)
                            if v is None or v[0] is None:
                                bad.append("stored region %d is not examined (%s)" % (k, fmtst(q.extra))); continue
                            if v[0]:
                                oo, os_ = vec("oo%d" % k, nd), vec("os%d" % k, nd)
                                f = (FILE + A("off", k), vec("ct%d" % k, nd), [a - b for a, b in zip(oo, vec("st%d" % k, nd))])
                                m = (reg("BUF"), vec("rs", nd), [a - b for a, b in zip(oo, vec("ro", nd))])
                                want.append(copies.block(*(f + m if write else m + f), os_, U, Sx))
                        cont = any(v and v[1] for v in st.values())
                        if bad:
                            continue
                        if write and not cont:
                            want.append(copies.block(FILE + EOF, vec("rs", nd), [Poly.c(0)] * nd, reg("BUF"), vec("rs", nd),
                                                     [Poly.c(0)] * nd, vec("rs", nd), U, Sx))
                        want = [w for w in want if not w.empty()]
                        # element size: the file blocks are in bytes already
                        gk = sorted(repr(c.key()) for c in got); wk = sorted(repr(w.key()) for w in want)
                        if gk != wk:
                            d = [w for w in want if repr(w.key()) not in gk][:1]
                            h = [c for c in got if repr(c.key()) not in wk][:1]
                            bad.append("with %s%s: missing %r, did %r" % (fmtst(q.extra), "" if nd == 1 else
                                       " (data sieving %s)" % ("on" if sieve else "off"), d, h))
                            continue
                        if write:
                            head = L.get(q, I, reg("DR"), "data_server_region_t", "region_storage_head")
                            cur = head; seen = []
                            while cur.const() != 0 and len(seen) < 6:
                                seen.append(cur); cur = L.get(q, I, cur, "region_list_t", "next")
                            if cur.const() != 0 or len(seen) != K + (0 if cont else 1):
                                bad.append("a write with %s leaves %d regions recorded for the object" % (fmtst(q.extra), len(seen)))
                                continue
                            if not cont:
                                n = seen[-1]
                                g = lambda fld, i=0: Sx(L.get(q, I, n, "region_list_t", fld, i))
                                if [g("start", i) for i in range(nd)] != [Sx(x) for x in vec("ro", nd)] or \
                                        [g("count", i) for i in range(nd)] != [Sx(x) for x in vec("rs", nd)] or \
                                        g("offset") != EOF or g("data_size") != Sx(volume(vec("rs", nd))) or g("ndim").const() != nd:
                                    bad.append("the appended region is recorded with another place, shape or size than written")
                                if any(e[0] == "free" and e[1] == n for e in q.events):
                                    bad.append("the recorded region is freed")
                    report(fn, bad, "%dD, %d stored regions, data sieving %s" % (nd, K, "on" if sieve else "off"))
    with chk.part("data write"):
        dataserver("PDC_Server_data_write_out", True)
    with chk.part("data read"):
        dataserver("PDC_Server_data_read_from", False)

    # ---- chunked writes
    def posix():
        fn = S.fn("PDC_Server_posix_write")
        N = Poly.a(("in", "n"))

        def wr(f, args, path, x):
            if f == "write":
                path.ev("memcpy", FILE + path.mem[copies.POS], args[1], args[2])
                path.mem[copies.POS] = path.mem[copies.POS] + args[2]
                return args[2]
        p = Path(); p.mem[copies.POS] = Poly.c(0)
        I = Interp(S, ext=wr)
        res = I.run(fn, [Poly.a(("in", "fd")), reg("BUF"), N], p)
        bad = []; n = 0
        for rv, q in res:
            chk.count("traces")
            tot = Poly(); ok = True
            for e in q.events:
                if e[0] != "memcpy":
                    continue
                d = e[1] - FILE; s = e[2] - reg("BUF")
                if d != s:
                    ok = False
                ln = e[3]
                for it, trip in e.loops:
                    st = copies.stride(d, it)
                    if st is None or st[1] != ln:
                        ok = False
                    ln = ln * trip
                tot = tot + ln
            if rv is None or rv.const() != 0:
                continue
            n += 1
            if not ok or tot != N:
                bad.append("%r bytes of %r are written, or not from where they belong" % (tot, N))
        if not n:
            bad.append("never succeeds")
        report(fn, bad, "chunks")
    with chk.part("posix write"):
        posix()

    chk.floor("obligations", 50)
    return chk.finish("The cache and region-file routines were abstractly interpreted on lists of symbolic regions in every "
                      "overlap/containment state; copies through temporary buffers were composed and compared with the block "
                      "copies each state requires.")
