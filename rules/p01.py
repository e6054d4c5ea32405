"""P01: a region transfer is split over the data servers into disjoint parts that cover the region exactly, each
going to (and coming back from) its own server, place and buffer."""
import ir
from report import Check
from absint import Interp, Path, reg
from order import OrderOracle, decide
from sym import Poly
from copies import Layout, equalities
from frontend import AnalysisBroken

PID = "P01"
U = Poly.a(("in", "unit"))
c = Poly.c


def A(n, k):
    return Poly.a(("in", n, k))


def enum(P, name):
    for m in P.enums.values():
        if name in m:
            return m[name]
    raise AnalysisBroken("enumerator %s not found" % name)


class SplitOracle(OrderOracle):
    """end points: the servers' boundaries A0 < A1 < .. < An = extent and the region's start C and end E.
    Boundaries are i*s + k_i for the single unknown s, the quotient extent / servers."""

    def __init__(self, n, r, s, C, z):
        self.n = n; self.s = s
        x = n - r
        self.k = [max(0, i - x) for i in range(n + 1)]
        d = {"A%d" % i: Poly.a(("bnd", i)) for i in range(n + 1)}
        d["C"] = C; d["E"] = C + z
        lt = [("C", "E")]
        super().__init__([{"C": C, "E": C + z}], lt)      # end points to atoms
        self.atom.update({("bnd", i): {(0, "A%d" % i): 1} for i in range(n + 1)})
        self.dims = [d]
        self.orders = list(self._orders(n))
        self.smin = 2 if r == 0 else 1

    @staticmethod
    def _orders(n):
        """every placement of C < E among A0 < .. < An: on a boundary (2i) or strictly between two (2i+1)"""
        for pc in range(2 * n):
            for pe in range(pc + (0 if pc % 2 else 1), 2 * n + 1):
                pos = {}
                for i in range(n + 1):
                    pos.setdefault((2 * i, 0), set()).add("A%d" % i)
                pos.setdefault((pc, 0), set()).add("C")
                pos.setdefault((pe, 1 if pe == pc else 0), set()).add("E")
                yield tuple(frozenset(pos[k]) for k in sorted(pos))

    def value(self, name):
        i = int(name[1:])
        return c(i) * self.s + c(self.k[i])

    def lin(self, d):
        (sa,), = self.s.t.keys()
        ks = d.t.get((sa,), 0)
        rest = d - c(ks) * self.s
        if abs(ks) > self.n:
            return None
        i = abs(ks)
        b = Poly.a(("bnd", i)) - c(self.k[i])
        l = super().lin(rest + (b if ks > 0 else -b))
        if l is None:
            return None
        co, c0 = l
        if co:      # A0 is 0: balance the form
            co[(0, "A0")] = co.get((0, "A0"), 0) - sum(co.values())
        return {q: v for q, v in co.items() if v}, c0

    def __call__(self, path, core, a, b):
        d = a - b
        (sa,), = self.s.t.keys()
        if d.atoms() == {sa} and len(d.t) <= 2:
            ks = d.t.get((sa,), 0); k0 = d.t.get((), 0)
            lo = hi = None
            if ks > 0:
                lo = ks * self.smin + k0
            elif ks < 0:
                hi = ks * self.smin + k0
            t = decide(core, lo, hi)
            if t is not None:
                return t
        for at in d.atoms():
            if at[:2] == ("in", "small"):      # 1 .. n
                ks = d.t.get((at,), 0); k0 = d.t.get((), 0)
                if len(d.t) <= 2 and abs(ks) == 1:
                    lo, hi = (1 + k0, self.n + k0) if ks == 1 else (k0 - self.n, k0 - 1)
                    t = decide(core, lo, hi)
                    if t is not None:
                        return t
        return super().__call__(path, core, a, b)


def gcell(P, names):
    def cell(r, off):
        if isinstance(r[1], tuple) and r[1][0] == "glob":
            n = r[1][1].split("#")[0]
            if n in names and off == 0:
                return names[n]
        return None
    return cell


def partition(chk, C):
    fn = C.fn("static_region_partition")
    chk.analysed["functions"].append(fn.name)
    W, R = enum(C, "PDC_WRITE"), enum(C, "PDC_READ")
    for nd in (1, 2, 3):
        for n in (1, 2, 3, 4):
            for r in range(n):
                for sp in (range(nd) if n < 4 else [nd - 1]):
                    acc, setb = (W, 1) if (r + sp) % 2 == 0 else (R, (r + nd) % 2)
                    one(chk, C, fn, nd, n, r, sp, acc, setb, W)
    # every extent at most the number of servers
    for nd in (1, 2):
        for n in (1, 2, 3):
            bad = None
            for ext in range(1, n + 1):
                for o in range(ext):
                    for z in range(1, ext - o + 1):
                        bad = bad or small(chk, C, fn, nd, n, ext, o, z, W)
            chk.oblige(bad is None, "static_region_partition:small:%dD:%d" % (nd, n), "%s (static_region_partition, %dD, "
                       "%d servers): %s" % (fn.where(), nd, n, bad), "%dD, extents up to %d servers" % (nd, n))


def mkargs(P, nd, access, setb):
    return [reg("BUF"), c(nd), U, c(access), reg("OD"), reg("OFF"), reg("SZ"), c(setb), reg("NS"), reg("IDS"), reg("SUBO"),
            reg("OUTO"), reg("OUTS"), reg("OUTB")]


def ext_common(f, args, path, x):
    if f == "realloc":
        path.ev("realloc", args[0], args[1])
        return args[0]
    if f == "memcpy_subregion":
        path.ev("sub", tuple(args))
        return c(0)
    return None


class PI(Interp):
    def load(self, p, path, ty=None):
        return super().load(p, path, ty)


def readout(q, I, nd, setb):
    """the parts the routine returned: list of (server, offsets, sizes, sub offsets, buffer, size pointer, sub pointer)"""
    n = q.mem.get((("reg", "NS"), 0))
    if n is None or n.const() is None:
        return None
    out = []
    for k in range(n.const()):
        ld = lambda name, w=8: I.load(I.load(reg(name), q) + c(w * k), q)
        ids = ld("IDS", 4)
        o, s, b = ld("OUTO"), ld("OUTS"), ld("SUBO")
        buf = ld("OUTB") if setb else None
        g = lambda p: [I.load(p + c(8 * j), q) for j in range(nd)]
        out.append((ids, g(o), g(s), g(b), buf, s, b))
    return out


def judge(chk, q, I, nd, setb, acc, W, want, same, small=False):
    """want: list of (server, offset in the split dimension, size, sub offset); others pass through"""
    parts = readout(q, I, nd, setb)
    if parts is None:
        return "the number of servers is not reported"
    want_ne = [w for w in want if w[4]]
    if small:
        # empty parts are harmless: only count parts with elements
        ne = []
        for p in parts:
            if any(x.const() == 0 for x in p[2]):
                continue
            ne.append(p)
    else:
        ne = parts
    got = [p[0].const() for p in ne]
    if got != [w[0] for w in want_ne]:
        return "the parts go to servers %s, expected %s" % (got, [w[0] for w in want_ne])
    for p, w in zip(ne, want_ne):
        for j in range(nd):
            eo, es, eb = w[1][j], w[2][j], w[3][j]
            for nm, g, e in (("offset", p[1][j], eo), ("size", p[2][j], es), ("offset within the region", p[3][j], eb)):
                if not same(g - e):
                    return "server %d gets %s %s in dimension %d, expected %s" % (w[0], nm, g, j, e)
    if setb and acc == W:
        subs = [e[1] for e in q.events if e[0] == "sub"]
        exp = [(c(nd), U, c(W), reg("BUF"), reg("SZ"), p[4], p[6], p[5]) for p in parts]
        if subs != exp:
            return "the parts' data is not copied from the region's buffer part by part"
        allocs = {e[1].key(): e[2] for e in q.events if e[0] == "alloc"}
        for p in parts:
            r, off = Interp.split(p[4])
            a = allocs.get(p[4].key())
            vol = U
            for s in p[2]:
                vol = vol * s
            if a is None or not (same(a - vol) or same(a - vol * U)):
                return "the buffer of a part is not allocated with the part's size"
    return None


def one(chk, C, fn, nd, n, r, sp, acc, setb, W):
    s = Poly.a(("in", "s"))
    D = c(n) * s + c(r)
    Cc, z = A("off", sp), A("size", sp)
    oc = SplitOracle(n, r, s, Cc, z)
    g = gcell(C, {"pdc_server_num_g": c(n)})

    def cell(rg, off):
        if rg == ("reg", "OD") and off % 8 == 0:
            k = off // 8
            return D if k == sp else Poly.a(("in", "small", k)) if k > sp else A("od", k)
        if rg == ("reg", "OFF"):
            return A("off", off // 8)
        if rg == ("reg", "SZ"):
            return A("size", off // 8)
        return g(rg, off)
    p = Path(); p.extra = oc.init()
    label = "%dD, %d servers, extent %d*s+%d, split dimension %d" % (nd, n, n, r, sp)
    key = "static_region_partition:%d:%d:%d:%d" % (nd, n, r, sp)
    with chk.part("static_region_partition " + label):
        I = Interp(C, oracle=oc, cell=cell, ext=ext_common)
        res = I.run(fn, mkargs(C, nd, acc, setb), p)
        bad = None
        for rv, q in res:
            chk.count("paths")
            exs = [q.extra]
            if q.extra[0] is None:
                bad = "the parts do not depend on the region's position"; break
            for ex in exs:
                order, gaps = ex[0]
                rank = {m: i for i, cl in enumerate(order) for m in cl}

                eq = {}
                for cl in order:
                    for m in cl:
                        if m[0] == "A":
                            if "C" in cl:
                                eq["C"] = oc.value(m)
                            if "E" in cl:
                                eq["E"] = oc.value(m)
                ca, za = list(Cc.atoms())[0], list(z.atoms())[0]
                cv = eq.get("C", Cc)
                sub = {ca: cv}
                if "E" in eq:
                    sub[za] = eq["E"] - cv

                def same(d):
                    if d.subst(lambda a: sub.get(a)) == c(0):
                        return True
                    l = oc.lin(d)
                    if l is None:
                        return d == c(0)
                    lo, hi, _ = oc.interval(ex, *l)
                    return lo == 0 and hi == 0
                want = []
                for i in range(n):
                    a, b = rank["A%d" % i], rank["A%d" % (i + 1)]
                    ne = max(a, rank["C"]) < min(b, rank["E"])
                    st = oc.value("A%d" % i) if a >= rank["C"] else Cc
                    en = oc.value("A%d" % (i + 1)) if b <= rank["E"] else Cc + z
                    o = [A("off", j) for j in range(nd)]; sz = [A("size", j) for j in range(nd)]; so = [c(0)] * nd
                    o[sp] = st; sz[sp] = en - st; so[sp] = st - Cc
                    want.append((i, o, sz, so, ne))
                bad = judge(chk, q, I, nd, setb, acc, W, want, same)
                if bad:
                    bad += " when %s" % " < ".join("=".join(sorted(cl)) for cl in order)
                    break
            if bad:
                break
        if not res:
            bad = "no feasible result"
        chk.oblige(not bad, key, "%s (static_region_partition, %s): %s" % (fn.where(), label, bad), label)


def small(chk, C, fn, nd, n, ext, o, z, W):
    """all extents at most n: the last dimension is split"""
    g = gcell(C, {"pdc_server_num_g": c(n)})

    def cell(rg, off):
        k = off // 8
        if rg == ("reg", "OD") and off % 8 == 0:
            return c(ext) if k == nd - 1 else c(1)
        if rg == ("reg", "OFF"):
            return c(o) if k == nd - 1 else c(0)
        if rg == ("reg", "SZ"):
            return c(z) if k == nd - 1 else c(1)
        return g(rg, off)
    I = Interp(C, cell=cell, ext=ext_common)
    res = I.run(fn, mkargs(C, nd, W, 1), Path())
    chk.count("paths", len(res))
    if len(res) != 1:
        return "constant extents do not determine the parts"
    s, r = ext // n, ext % n
    x = n - r
    want = []
    cov = set()
    q = res[0][1]
    parts = readout(q, I, nd, 1)
    for p in parts or ():
        vals = [v.const() for l in p[1:4] for v in l] + [p[0].const()]
        if any(v is None for v in vals):
            return "a part is not determined by constant extents"
        b, w, so = (p[i][nd - 1].const() for i in (1, 2, 3))
        if so != b - o:
            return "extent %d, region [%d,%d): a part starts at %d but is taken from %d" % (ext, o, o + z, b, so)
        for e in range(b, b + w):
            if e in cov:
                return "extent %d, region [%d,%d): element %d goes to two servers" % (ext, o, o + z, e)
            cov.add(e)
            own = [i for i in range(n) if i * s + max(0, i - x) <= e < (i + 1) * s + max(0, i + 1 - x)]
            if own != [p[0].const()]:
                return "extent %d, region [%d,%d): element %d goes to server %s, not %s" % (ext, o, o + z, e,
                                                                                          p[0].const(), own)
    if cov != set(range(o, o + z)):
        return "extent %d, region [%d,%d): elements %s go nowhere" % (ext, o, o + z, sorted(set(range(o, o + z)) - cov))
    return None


# ---- sending the parts and bringing them back
ST = "pdc_transfer_request"


def request(C, L, p, part, acc, n, started, name="T", consistency=None, ndim=1):
    arr = lambda nm: reg((name, nm))
    f = dict(obj_id=A(name + "obj", 0), data_server_id=A(name + "ds", 0), metadata_server_id=A(name + "ms", 0),
             access_type=c(acc), unit=U, buf=arr("BUF"), region_partition=c(part), n_obj_servers=c(n),
             new_buf=arr("NEW"), local_region_ndim=c(ndim), local_region_offset=arr("LO"), local_region_size=arr("LS"),
             remote_region_ndim=c(ndim), remote_region_offset=arr("RO"), remote_region_size=arr("RS"),
             total_data_size=A(name + "total", 0), obj_ndim=c(ndim), obj_dims=arr("OD"), obj_pointer=arr("OP"),
             metadata_id=arr("MID") if started else c(0), read_bulk_buf=arr("RB") if started else c(0),
             bulk_buf=arr("BB") if started else c(0), bulk_buf_ref=c(0),
             consistency=c(consistency if consistency is not None else 0), obj_servers=arr("OS"), output_offsets=arr("OO"),
             sub_offsets=arr("SO"), output_sizes=arr("OZ"), output_buf=arr("OB"))
    L.put(p, name, ST, **f)
    return p


def cellsfor(name, n):
    def cell(r, off):
        nm = r[1]
        if isinstance(nm, tuple) and len(nm) == 2 and nm[0] == name:
            if nm[1] == "OS" and off % 4 == 0:
                return A(name + "srv", off // 4)
            if nm[1] in ("OO", "SO", "OZ", "OB", "RB", "MID", "BB") and off % 8 == 0:
                if nm[1] == "MID":
                    return A(name + "mid", off // 8)
                return reg((name, nm[1], off // 8))
            if nm[1] in ("RO", "RS", "OD", "LO", "LS") and off % 8 == 0:
                return A(name + nm[1], off // 8)
        if isinstance(nm, tuple) and nm[0] == "info" and off == INFO_OFF[0]:
            return reg(nm[1])
        return None
    return cell


INFO_OFF = [0]


def finder(f, args, path, x, ids):
    if f == "PDC_find_id":
        for i, nm in ids.items():
            if args[0] == i:
                return reg(("info", nm))
        return reg(("info", "?"))
    return None


def start(chk, C, L):
    fn = C.fn("PDCregion_transfer_start")
    chk.analysed["functions"].append(fn.name)
    W, R = enum(C, "PDC_WRITE"), enum(C, "PDC_READ")
    ST_, OBJ = enum(C, "PDC_REGION_STATIC"), enum(C, "PDC_OBJ_STATIC")
    for acc in (W, R):
        for part, pname in ((ST_, "static"), (OBJ, "object")):
            with chk.part("start %s" % pname):
                p = Path()
                request(C, L, p, part, acc, 3 if part == ST_ else 77, False, consistency=enum(C, "PDC_CONSISTENCY_COMMIT"))
                base = cellsfor("T", 2)

                def ext(f, args, path, x):
                    r = finder(f, args, path, x, {A("tid", 0): "T"})
                    if r is not None:
                        return r
                    if f == "pack_region_buffer":
                        path.ev("pack", tuple(args))
                        rr, o = Interp.split(args[-1])
                        path.mem[(rr, o.const())] = reg(("T", "NEW2"))
                        return c(0)
                    if f == "static_region_partition":
                        path.ev("split", tuple(args[:8]))
                        for i, v in zip(range(8, 14), (c(3), reg(("T", "OS")), reg(("T", "SO")), reg(("T", "OO")),
                                                       reg(("T", "OZ")), reg(("T", "OB")))):
                            rr, o = Interp.split(args[i])
                            path.mem[(rr, o.const())] = v
                        return c(0)
                    if f == "PDC_Client_transfer_request":
                        path.ev("send", tuple(args))
                        return c(0)
                    if f in ("attach_local_transfer_request", "PDCregion_transfer_wait"):
                        return c(0)
                    return None
                I = Interp(C, cell=base, ext=ext)
                res = I.run(fn, [A("tid", 0)], p)
                bad = None
                if not res:
                    bad = "nothing is sent"
                for rv, q in res:
                    chk.count("paths")
                    sends = [e[1] for e in q.events if e[0] == "send"]
                    mid = L.get(q, I, reg("T"), ST, "metadata_id")
                    rb = L.get(q, I, reg("T"), ST, "read_bulk_buf")
                    n = 3 if part == ST_ else 1
                    want = []
                    for i in range(n):
                        if part == ST_:
                            want.append((reg(("T", "OB", i)), A("Tobj", 0), A("Tsrv", i), c(1), reg(("T", "OD")), c(1),
                                         reg(("T", "OO", i)), reg(("T", "OZ", i)), U, c(acc), mid + c(8 * i)))
                        else:
                            want.append((reg(("T", "NEW2")), A("Tobj", 0), A("Tds", 0), c(1), reg(("T", "OD")), c(1),
                                         reg(("T", "RO")), reg(("T", "RS")), U, c(acc), mid))
                    bad = bad or seq(sends, want, "sent")
                    if L.get(q, I, reg("T"), ST, "n_obj_servers") != c(n):
                        bad = bad or "n_obj_servers is not the number of parts sent"
                    if acc == R:
                        for i in range(n):
                            e = reg(("T", "OB", i)) if part == ST_ else reg(("T", "NEW2"))
                            if I.load(rb + c(8 * i), q) != e:
                                bad = bad or "the buffer a read of part %d fills is not the one its data is taken from" % i
                    if part == ST_:
                        sp = [e[1] for e in q.events if e[0] == "split"]
                        if sp != [(reg(("T", "NEW2")), c(1), U, c(acc), reg(("T", "OD")), reg(("T", "RO")),
                                   reg(("T", "RS")), c(1))]:
                            bad = bad or "the object's remote region is not what is split over the servers"
                    pk = [e[1] for e in q.events if e[0] == "pack"]
                    if not (len(pk) == 1 and pk[0][:8] == (reg(("T", "BUF")), reg(("T", "OD")), A("Ttotal", 0), c(1),
                                                           reg(("T", "LO")), reg(("T", "LS")), U, c(acc))):
                        bad = bad or "the local region is not what is packed"
                chk.oblige(not bad, "start:%s:%d" % (pname, acc), "%s (PDCregion_transfer_start, %s partition): %s" %
                           (fn.where(), pname, bad), "start, %s partition" % pname)


def seq(got, want, verb):
    if len(got) != len(want):
        return "%d parts are %s, expected %d" % (len(got), verb, len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        for k, (a, b) in enumerate(zip(g, w)):
            if b is not None and a != b:
                return "part %d is %s with %s where %s is expected (argument %d)" % (i, verb, a, b, k)
    return None


def pkglist(I, q, head, L, n):
    out = []
    for i in range(n):
        out.append(I.load(head + c(8 * i), q))
    return out


def prepare(chk, C, L):
    """the aggregated start: one package per part, each with its own server, place and buffer"""
    fn = C.fn("prepare_start_all_requests")
    chk.analysed["functions"].append(fn.name)
    W, R = enum(C, "PDC_WRITE"), enum(C, "PDC_READ")
    parts = {"static": enum(C, "PDC_REGION_STATIC"), "object": enum(C, "PDC_OBJ_STATIC"),
             "dynamic": enum(C, "PDC_REGION_DYNAMIC"), "local": enum(C, "PDC_REGION_LOCAL")}
    for acc in (W, R):
        for pname, part in parts.items():
            for mixed in (0, 1):
                with chk.part("prepare %s" % pname):
                    p = Path()
                    cons = enum(C, "PDC_CONSISTENCY_COMMIT")
                    # a first request of the other direction or kind, then the one examined
                    request(C, L, p, parts["static"] if mixed else parts["object"], W if mixed else R, 1, False, "V", cons)
                    request(C, L, p, part, acc, 2, False, "T", cons)
                    bs = [cellsfor("T", 2), cellsfor("V", 2)]

                    def cell(r, off, bs=bs):
                        if r == ("reg", "IDS2"):
                            return A("tid", off // 8)
                        for b in bs:
                            v = b(r, off)
                            if v is not None:
                                return v
                        return None

                    def ext(f, args, path, x):
                        r = finder(f, args, path, x, {A("tid", 0): "V", A("tid", 1): "T"})
                        if r is not None:
                            return r
                        if f == "pack_region_buffer":
                            rr, o = Interp.split(args[-1])
                            path.mem[(rr, o.const())] = reg((rr[1], "NEW2"))
                            return c(0)
                        if f == "static_region_partition":
                            rr, o = Interp.split(args[8])
                            nm = rr[1]
                            path.ev("split", nm, tuple(args[:8]))
                            for i, v in zip(range(8, 14), (c(3), reg((nm, "OS")), reg((nm, "SO")), reg((nm, "OO")),
                                                           reg((nm, "OZ")), reg((nm, "OB")))):
                                rr, o = Interp.split(args[i])
                                path.mem[(rr, o.const())] = v
                            return c(0)
                        if f == "register_metadata":
                            n = args[1].const()
                            if n is None:
                                raise AnalysisBroken("number of requests is not determined")
                            path.ev("register", args[0], n, args[2])
                            for i, v in ((3, args[0]), (4, args[1])):
                                rr, o = Interp.split(args[i])
                                path.mem[(rr, o.const())] = v
                            return c(0)
                        if f == "PDC_get_client_data_server":
                            return A("near", 0)
                        if f in ("attach_local_transfer_request", "qsort", "set_obj_server_bufs"):
                            path.ev("call", f, tuple(args))
                            return c(0)
                        return None
                    I = Interp(C, cell=cell, ext=ext)
                    args = [reg("IDS2"), c(2)] + [reg(x) for x in ("WL", "RL", "WN", "RN", "PI", "PN")]
                    res = I.run(fn, args, p)
                    bad = None if res else "nothing is prepared"
                    for rv, q in res:
                        chk.count("paths")
                        lst, num = ("WL", "WN") if acc == W else ("RL", "RN")
                        n = I.load(reg(num), q).const()
                        if n is None:
                            bad = bad or "the number of packages is not determined"; break
                        head = I.load(reg(lst), q)
                        got = []
                        for pk in pkglist(I, q, head, L, n):
                            g = lambda f: L.get(q, I, pk, "pdc_transfer_request_start_all_pkg", f)
                            if g("transfer_request") == reg("T"):
                                got.append(tuple(g(f) for f in ("data_server_id", "remote_offset", "remote_size", "index")) +
                                           ((g("buf"),) if acc == W else ()))
                        if pname == "static":
                            want = [(A("Tsrv", i), reg(("T", "OO", i)), reg(("T", "OZ", i)), c(i)) +
                                    ((reg(("T", "OB", i)),) if acc == W else ()) for i in range(3)]
                        else:
                            want = [(A("Tds", 0) if pname == "object" else A("near", 0), reg(("T", "RO")), reg(("T", "RS")),
                                     c(0)) + ((reg(("T", "NEW2")),) if acc == W else ())]
                        bad = bad or seq(got, want, "prepared")
                        if L.get(q, I, reg("T"), ST, "n_obj_servers") != c(len(want)):
                            bad = bad or "n_obj_servers is not the number of parts"
                        rg = [e for e in q.events if e[0] == "register" and e[3] == c(1 if acc == W else 0)]
                        if len(rg) != 1:
                            bad = bad or "the %s requests are not registered as such" % ("write" if acc == W else "read")
                        other = ("RN" if acc == W else "WN")
                        on = I.load(reg(other), q).const()
                        if on is None:
                            bad = bad or "the number of packages of the other direction is not determined"
                        else:
                            for pk in pkglist(I, q, I.load(reg("RL" if acc == W else "WL"), q), L, on):
                                if L.get(q, I, pk, "pdc_transfer_request_start_all_pkg", "transfer_request") == reg("T"):
                                    bad = bad or "the request is also prepared for the other direction"
                    chk.oblige(not bad, "prepare:%s:%d:%d" % (pname, acc, mixed),
                               "%s (prepare_start_all_requests, %s partition): %s" % (fn.where(), pname, bad),
                               "prepare, %s partition" % pname)


def finishing(chk, C, L):
    """completion: the data of every part of a read is put where the part belongs, then handed to the user"""
    W, R = enum(C, "PDC_WRITE"), enum(C, "PDC_READ")
    parts = {"static": enum(C, "PDC_REGION_STATIC"), "object": enum(C, "PDC_OBJ_STATIC"),
             "dynamic": enum(C, "PDC_REGION_DYNAMIC"), "local": enum(C, "PDC_REGION_LOCAL")}
    done = enum(C, "PDC_TRANSFER_STATUS_COMPLETE")
    for name in ("PDCregion_transfer_status", "PDCregion_transfer_wait", "PDCregion_transfer_wait_all"):
        fn = C.fn(name)
        chk.analysed["functions"].append(name)
        for acc in (R, W):
            for pname, part in parts.items():
                with chk.part("%s %s" % (name, pname)):
                    p = Path()
                    n = 1 if pname == "object" else 3
                    request(C, L, p, part, acc, n, True)
                    base = cellsfor("T", 2)

                    def cell(r, off):
                        if r == ("reg", "IDS2"):
                            return A("tid", 0) if off == 0 else None
                        return base(r, off)

                    forgot = next(m["PDC_TRANSFER_STATUS_NOT_FOUND"] for m in C.enums.values()
                                  if "PDC_TRANSFER_STATUS_NOT_FOUND" in m)

                    def ext(f, args, path, x):
                        r = finder(f, args, path, x, {A("tid", 0): "T"})
                        if r is not None:
                            return r
                        if f == "memcpy_subregion":
                            path.ev("sub", tuple(args)); return c(0)
                        if f == "release_region_buffer":
                            path.ev("release", tuple(args)); return c(0)
                        if f == "PDC_Client_transfer_request_status":
                            out = []
                            for v in sorted(set(next(m for m in C.enums.values() if 'PDC_TRANSFER_STATUS_COMPLETE' in m).values())):
                                q = path.copy()
                                q.ev("asked", args[0], args[1], v)
                                rr, o = Interp.split(args[2])
                                q.mem[(rr, o.const())] = c(v)
                                out.append((c(0), q))
                            return out
                        if f == "PDC_Client_transfer_request_wait":
                            path.ev("asked", args[0], args[1], done); return c(0)
                        if f == "PDC_Client_transfer_request_wait_all":
                            k = args[0].const()
                            if k is None:
                                raise AnalysisBroken("number of ids waited for is not determined")
                            for i in range(k):
                                path.ev("asked", I_[0].load(args[1] + c(8 * i), path), args[2], done)
                            return c(0)
                        if f in ("qsort", "remove_local_transfer_request"):
                            return c(0)
                        if f == "free":
                            path.ev("free", args[0]); return c(0)
                        return None
                    I = Interp(C, cell=cell, ext=ext)
                    I_ = [I]
                    args = [A("tid", 0)] + ([reg("CMP")] if name.endswith("status") else [])
                    if name.endswith("all"):
                        args = [reg("IDS2"), c(1)]
                    res = I.run(fn, args, p)
                    bad = None if res else "no result"
                    for rv, q in res:
                        chk.count("paths")
                        asked = [e for e in q.events if e[0] == "asked"]
                        srv = [A("Tds", 0)] if pname == "object" else [A("Tsrv", i) for i in range(n)]
                        want = [(A("Tmid", i), srv[i]) for i in range(n)]
                        Sx = equalities(q.facts)
                        if [(Sx(e[1]), Sx(e[2])) for e in asked] != [(Sx(a), Sx(b)) for a, b in want[:len(asked)]]:
                            bad = bad or "a part is waited for at another server than the one it was sent to"
                        rel = [e for e in q.events if e[0] == "release"]
                        # a server forgets a part once it has reported it complete
                        gone = len(asked) == n and all(e[3] in (done, forgot) for e in asked)
                        comp = gone and all(e[3] == done for e in asked) or gone and len(rel) == 1
                        if comp != (len(rel) == 1):
                            bad = bad or ("the data is handed over before every part is complete" if rel else
                                          "the data of a complete transfer is not handed over")
                        if not comp:
                            continue
                        sub = [e[1] for e in q.events if e[0] == "sub"]
                        mc = [e[1:4] for e in q.events if e[0] == "memcpy"]
                        if acc == R and pname != "object":
                            w = [(c(1), U, c(R), reg(("T", "NEW")), reg(("T", "RS")), reg(("T", "RB", i)),
                                  reg(("T", "SO", i)), reg(("T", "OZ", i))) for i in range(n)]
                            bad = bad or seq(sub, w, "put into place")
                        elif sub:
                            bad = bad or "data is moved that was not read"
                        if acc == R and pname == "object":
                            if mc != [(reg(("T", "NEW")), reg(("T", "RB", 0)), A("Ttotal", 0))]:
                                bad = bad or "the data read is not copied to the region's buffer"
                        order = [e[0] for e in q.events if e[0] in ("asked", "sub", "release", "memcpy")]
                        if order and order[-1] != "release":
                            bad = bad or "the data is handed over before all of it is in place"
                        r0 = rel[0][1]
                        if r0[:7] != (reg(("T", "BUF")), reg(("T", "OD")), c(1), reg(("T", "LO")), reg(("T", "LS")), U,
                                      c(acc)) or r0[8] != reg(("T", "NEW")):
                            bad = bad or "the user's region is not what is filled"
                        if L.get(q, I, reg("T"), ST, "metadata_id") != c(0):
                            bad = bad or "a completed transfer still counts as started"
                    chk.oblige(not bad, "%s:%s:%d" % (name, pname, acc), "%s (%s, %s partition): %s" %
                               (fn.where(), name, pname, bad), "%s, %s partition" % (name, pname))


def create(chk, C, L):
    """a request captures the caller's buffer, direction, object and both regions as they are at creation"""
    fn = C.fn("PDCregion_transfer_create")
    chk.analysed["functions"].append(fn.name)
    off = L.off("_pdc_id_info", "obj_ptr")
    for l, r, od in ((1, 1, 1), (2, 2, 2), (3, 3, 3), (1, 3, 3), (2, 1, 3), (3, 2, 1)):
        with chk.part("create %d:%d:%d" % (l, r, od)):
            p = Path()
            L.put(p, "R1", "pdc_region_info", ndim=c(l), offset=reg("R1o"), size=reg("R1s"))
            L.put(p, "R2", "pdc_region_info", ndim=c(r), offset=reg("R2o"), size=reg("R2s"))
            L.put(p, "O", "_pdc_obj_info", obj_pt=reg("PR"), obj_info_pub=reg("PUB"), metadata=reg("MD"))
            L.put(p, "PR", "_pdc_obj_prop", obj_prop_pub=reg("PP"))
            L.put(p, "PP", "pdc_obj_prop", ndim=c(od), dims=reg("Dim"), type=A("type", 0), consistency=A("cons", 0))
            L.put(p, "PUB", "pdc_obj_info", meta_id=A("meta", 0), metadata_server_id=A("ms", 0))
            L.put(p, "MD", "pdc_metadata_t", region_partition=A("part", 0), data_server_id=A("ds", 0))

            def cell(rg, o, off=off):
                nm = rg[1]
                if nm in ("R1o", "R1s", "R2o", "R2s", "Dim") and o % 8 == 0:
                    return A(nm, o // 8)
                if isinstance(nm, tuple) and nm[0] == "info" and o == off:
                    return reg(nm[1])
                return None

            def ext(f, args, path, x):
                if f == "PDC_find_id":
                    for i, nm in (("obj", "O"), ("l", "R1"), ("r", "R2")):
                        if args[0] == A("id", i):
                            return reg(("info", nm))
                if f == "PDC_get_var_type_size":
                    return U if args[0] == A("type", 0) else None
                if f == "PDC_id_register":
                    path.ev("registered", args[0], args[1])
                    return A("newid", 0)
                return None
            I = Interp(C, cell=cell, ext=ext)
            res = I.run(fn, [reg("BUF"), A("acc", 0), A("id", "obj"), A("id", "l"), A("id", "r")], p)
            bad = None if res else "no request"
            for rv, q in res:
                chk.count("paths")
                rg = [e for e in q.events if e[0] == "registered"]
                if len(rg) != 1 or rv != A("newid", 0):
                    bad = bad or "the request is not registered and returned"; continue
                t = rg[0][2]
                total = U
                for k in range(r):
                    total = total * A("R2s", k)
                want = dict(obj_id=A("meta", 0), data_server_id=A("ds", 0), metadata_server_id=A("ms", 0),
                            access_type=A("acc", 0), unit=U, buf=reg("BUF"), region_partition=A("part", 0), consistency=A("cons", 0),
                            local_region_ndim=c(l), remote_region_ndim=c(r), obj_ndim=c(od), total_data_size=total,
                            metadata_id=c(0), new_buf=c(0), bulk_buf=c(0), output_buf=c(0), read_bulk_buf=c(0),
                            obj_pointer=reg("O"))
                for k, v in want.items():
                    g = L.get(q, I, t, ST, k)
                    if g != v:
                        bad = bad or "field %s of the request is %s, expected %s" % (k, g, v)
                span = []
                for k, src, n in (("local_region_offset", "R1o", l), ("local_region_size", "R1s", l),
                                  ("remote_region_offset", "R2o", r), ("remote_region_size", "R2s", r), ("obj_dims", "Dim", od)):
                    a = L.get(q, I, t, ST, k)
                    for j in range(n):
                        if I.load(a + c(8 * j), q) != A(src, j):
                            bad = bad or "%s[%d] of the request is not the caller's" % (k, j)
                    ra, oa = Interp.split(a)
                    if ra is None or not (isinstance(ra[1], tuple) and ra[1][0] == "heap"):
                        bad = bad or "%s is not the request's own copy" % k
                    else:
                        span.append((ra, oa.const(), oa.const() + 8 * n, k))
                for ra, a, b, k in span:
                    sz = [e[2].const() for e in q.events if e[0] == "alloc" and Interp.split(e[1])[0] == ra]
                    if not sz or sz[0] is None or b > sz[0]:
                        bad = bad or "%s is not inside its allocation" % k
            chk.oblige(not bad, "create:%d:%d:%d" % (l, r, od), "%s (PDCregion_transfer_create): %s" % (fn.where(), bad),
                       "create, %d/%d/%d dimensions" % (l, r, od))


def run():
    chk = Check(PID, "for every object extent, region and number of servers the parts of a transfer are the non-empty "
                "intersections of the region with the servers' shares, each sent with its own server, place and buffer, "
                "and every part of a read is put back where it was cut")
    chk.assumptions += ["the region lies inside the object", "1 to 4 servers; the quotient extent/servers is symbolic",
                        "offset + size does not wrap"]
    C = ir.program("client")
    L = Layout(C)
    chk.analysed = {"functions": [], "dimensions": [1, 2, 3], "servers": [1, 2, 3, 4]}
    INFO_OFF[0] = L.off("_pdc_id_info", "obj_ptr")
    with chk.part("static_region_partition"):
        partition(chk, C)
    with chk.part("create"):
        create(chk, C, L)
    with chk.part("start"):
        start(chk, C, L)
    with chk.part("prepare"):
        prepare(chk, C, L)
    with chk.part("finish"):
        finishing(chk, C, L)
    chk.floor("obligations", 40)
    return chk.finish("The partition routine was abstractly interpreted for 1-4 servers over every order of the servers' "
                      "boundaries and the region's end points; the sending and completing routines with two parts and every "
                      "partition kind and direction.")
