"""R02: sub-region data is moved between exactly the right addresses.  Each copy routine is abstractly
interpreted with symbolic offsets, sizes and element size; its copy loops are summarised to closed form and
compared with the row-major block copy."""
import ir
from report import Check
from absint import Interp, Path, reg
from order import OrderOracle
from sym import Poly
import copies
from frontend import AnalysisBroken

PID = "R02"
U = Poly.a(("in", "unit"))


def A(n, k):
    return Poly.a(("in", n, k))


def arr(names, extra=None):
    def cell(r, off):
        if r[1] in names and off % 8 == 0 and off >= 0:
            return A(names[r[1]], off // 8)
        return extra(r, off) if extra else None
    return cell


def enum(P, name):
    for m in P.enums.values():
        if name in m:
            return m[name]
    raise AnalysisBroken("enumerator %s not found" % name)


def vec(n, nd):
    return [A(n, k) for k in range(nd)]


def zero(nd):
    return [Poly.c(0)] * nd


def run():
    chk = Check(PID, "for every dimension count, direction, offset, size and element size, each sub-region copy moves "
                "exactly the elements of the block between their row-major addresses, in memory and in the data file")
    chk.assumptions += ["address arithmetic does not wrap", "I/O calls that are issued succeed"]
    S = ir.program("server")
    C = ir.program("client")
    chk.analysed = {"functions": [], "dimensions": [1, 2, 3]}

    def target(P, name, variants):
        """variants: list of (label, args, cell, ext, want(S), sizes, isdata)"""
        fn = P.fn(name)
        chk.analysed["functions"].append(name)
        for label, args, cell, ext, want, sizes, isdata in variants:
            with chk.part("%s %s" % (name, label)):
                I = Interp(P, cell=cell, ext=ext)
                p = Path()
                res = I.run(fn, args, p)
                bad = []
                n = 0
                for rv, q in res:
                    n += copies.check(q, want, sizes, isdata, bad.append)
                    chk.count("paths")
                if not n:
                    bad.append("no path copies the block")
                chk.oblige(not bad, "%s:%s" % (name, label), "%s (%s, %s): %s" % (fn.where(), name, label, bad[0] if bad else ""),
                           "%s %s: %d paths" % (name, label, len(res)))

    anyd = lambda e: True
    R, W = enum(S, "PDC_READ"), enum(S, "PDC_WRITE")

    # between a buffer and a densely packed block
    for P, name in ((C, "memcpy_subregion"), (S, "memcpy_subregion")):
        if name not in P.fns:
            continue
        vs = []
        for nd in (1, 2, 3):
            for acc in (R, W):
                cell = arr({"SZ": "size", "SO": "so", "SS": "ss"})
                args = [Poly.c(nd), U, Poly.c(acc), reg("BUF"), reg("SZ"), reg("SUB"), reg("SO"), reg("SS")]
                sz, so, ss = vec("size", nd), vec("so", nd), vec("ss", nd)

                def want(Sx, nd=nd, acc=acc, sz=sz, so=so, ss=ss):
                    if acc == W:
                        return copies.block(reg("SUB"), ss, zero(nd), reg("BUF"), sz, so, ss, U, Sx)
                    return copies.block(reg("BUF"), sz, so, reg("SUB"), ss, zero(nd), ss, U, Sx)
                vs.append(("%dD %s" % (nd, "write" if acc == W else "read"), args, cell, None, want, ss, anyd))
        target(P, name, vs)
        break

    # between two buffers through their common part
    vs = []
    for nd in (1, 2, 3):
        cell = arr({"O1": "o1", "S1": "s1", "O2": "o2", "S2": "s2", "OO": "oo", "OS": "os"})
        args = [Poly.c(nd), U, reg("B1"), reg("O1"), reg("S1"), reg("B2"), reg("O2"), reg("S2"), reg("OO"), reg("OS")]
        o1, s1, o2, s2, oo, os_ = (vec(x, nd) for x in ("o1", "s1", "o2", "s2", "oo", "os"))

        def want(Sx, o1=o1, s1=s1, o2=o2, s2=s2, oo=oo, os_=os_):
            return copies.block(reg("B2"), s2, [a - b for a, b in zip(oo, o2)],
                                reg("B1"), s1, [a - b for a, b in zip(oo, o1)], os_, U, Sx)
        vs.append(("%dD" % nd, args, cell, None, want, os_, anyd))
    target(S, "memcpy_overlap_subregion", vs)

    # cache copies
    if "PDC_region_cache_copy" in S.fns:
        vs = []
        for nd in (1, 2, 3):
            for d in (0, 1):
                cell = arr({"O1": "o1", "S1": "s1", "O2": "o2", "S2": "s2"})
                args = [reg("B1"), reg("B2"), reg("O1"), reg("S1"), reg("O2"), reg("S2"), Poly.c(nd), U, Poly.c(d)]
                o1, s1, o2, s2 = (vec(x, nd) for x in ("o1", "s1", "o2", "s2"))

                def want(Sx, d=d, nd=nd, o1=o1, s1=s1, o2=o2, s2=s2):
                    off = [a - b for a, b in zip(o2, o1)]
                    if d:
                        return copies.block(reg("B1"), s1, off, reg("B2"), s2, zero(nd), s2, U, Sx)
                    return copies.block(reg("B2"), s2, zero(nd), reg("B1"), s1, off, s2, U, Sx)
                vs.append(("%dD direction %d" % (nd, d), args, cell, None, want, s2,
                           lambda e: Interp.split(e[1])[0] in (("reg", "B1"), ("reg", "B2"))))
        target(S, "PDC_region_cache_copy", vs)

    # client: pack before a write, unpack after a read
    shapes = {}
    for nd in (2, 3):
        fn = C.fn("pack_region_buffer")
        cell = arr({"OD": "od", "LO": "lo", "LS": "ls"})
        lo, ls, od = vec("lo", nd), vec("ls", nd), vec("od", nd)
        for name in ("pack_region_buffer", "release_region_buffer"):
            with chk.part("%s %dD" % (name, nd)):
                fn = C.fn(name)
                if nd == 2:
                    chk.analysed["functions"].append(name)
                pack = name == "pack_region_buffer"
                if pack:
                    args = [reg("BUF"), reg("OD"), Poly.a(("in", "total")), Poly.c(nd), reg("LO"), reg("LS"), U,
                            Poly.c(W), reg("NEWP")]
                else:
                    args = [reg("BUF"), reg("OD"), Poly.c(nd), reg("LO"), reg("LS"), U, Poly.c(R), Poly.c(0), reg("NEW"),
                            Poly.c(0), Poly.c(0), Poly.c(0)]
                res = Interp(C, cell=cell).run(fn, args, Path())
                best = None
                for rv, q in res:
                    for shape, nm in ((ls, "local_size"), (od, "obj_dims")):
                        bad = []

                        def want(Sx, q=q, shape=shape):
                            new = q.mem.get((("reg", "NEWP"), 0), reg("NEW")) if pack else reg("NEW")
                            b = reg("BUF")
                            if pack:
                                return copies.block(new, ls, zero(nd), b, shape, lo, ls, U, Sx)
                            return copies.block(b, shape, lo, new, ls, zero(nd), ls, U, Sx)
                        copies.check(q, want, ls, anyd, bad.append)
                        if not bad:
                            best = None; shapes[(name, nd)] = nm
                            break
                        best = best or bad[0]
                    if best:
                        break
                chk.count("paths", len(res))
                chk.oblige(best is None, "%s:%dD" % (name, nd), "%s (%s, %dD): %s" % (fn.where(), name, nd, best),
                           "%s %dD rows of %s" % (name, nd, shapes.get((name, nd))))
        with chk.part("pack/unpack %dD" % nd):
            a, b = shapes.get(("pack_region_buffer", nd)), shapes.get(("release_region_buffer", nd))
            if a and b:
                fn = C.fn("release_region_buffer")
                chk.oblige(a == b, "local-shape:%dD" % nd,
                           "%s (release_region_buffer, %dD): the user's buffer is read with rows of %s before a write "
                           "(pack_region_buffer) but filled with rows of %s after a read" % (fn.where(), nd, a, b))

    # server: data file
    struct = {n: (bo // 8, bs // 8) for n, bo, bs, t in (S.structs.get("pdc_region_info"))["m"]}
    FILE = reg("FILE")
    fext = copies.file_ext(FILE, fixed={k: Poly.a(("call", k)) for k in (
        "get_server_rank", "PDC_mkdir", "close", "snprintf", "PDC_Server_data_write_out", "PDC_Server_data_read_from")})
    vs = []
    for nd in (1, 2, 3):
        for w in (0, 1):
            def extra(r, off, nd=nd):
                if r == ("reg", "RI"):
                    for n, (o, z) in struct.items():
                        if o == off:
                            if n == "ndim":
                                return Poly.c(nd)
                            if n in ("offset", "size"):
                                return reg({"offset": "RO", "size": "RS"}[n])
                if r[1][0] == "glob" and r[1][1].split("#")[0] == "io_by_region_g" and off == 0:
                    return Poly.c(0)
                return None
            cell = arr({"RO": "ro", "RS": "rs", "OD": "od"}, extra)
            args = [Poly.a(("in", "obj")), Poly.c(nd), reg("OD"), reg("RI"), reg("BUF"), U, Poly.c(w)]
            ro, rs, od = vec("ro", nd), vec("rs", nd), vec("od", nd)

            def want(Sx, nd=nd, w=w, ro=ro, rs=rs, od=od):
                if w:
                    return copies.block(FILE, od, ro, reg("BUF"), rs, zero(nd), rs, U, Sx)
                return copies.block(reg("BUF"), rs, zero(nd), FILE, od, ro, rs, U, Sx)
            vs.append(("%dD %s" % (nd, "write" if w else "read"), args, cell, fext, want, rs, anyd))
    target(S, "PDC_Server_transfer_request_io", vs)

    # server: merging the cached 1-D regions of an object before they are flushed
    with chk.part("merge_requests"):
        merge(chk, S)

    chk.floor("obligations", 25)
    return chk.finish("Each routine was abstractly interpreted with symbolic inputs for 1 to 3 dimensions and both directions; "
                      "every loop was replaced by its closed form and every trace's copies compared, as normalised affine "
                      "copies, with the row-major block copy under the trace's own decisions.")


def merge(chk, S):
    fn = S.fn("merge_requests")
    chk.analysed["functions"].append("merge_requests")
    for K in (1, 2, 3):
        dims = [{}]
        for i in range(K):
            dims[0]["s%d" % i] = A("s", i); dims[0]["e%d" % i] = A("e", i)
        lt = [("s%d" % i, "e%d" % i) for i in range(K)]

        def pre(k, order, K=K):
            rank = {n: i for i, c in enumerate(order) for n in c}
            return all(rank["s%d" % i] <= rank["s%d" % (i + 1)] for i in range(K - 1))
        oc = OrderOracle(dims, lt, pre)

        def cell(r, off):
            if r == ("reg", "ST") and off % 8 == 0:
                return A("s", off // 8)
            if r == ("reg", "EN") and off % 8 == 0:
                return A("e", off // 8)
            if r == ("reg", "BUFS") and off % 8 == 0:
                return reg(("buf", off // 8))
            return None
        p = Path(); p.extra = oc.init()
        args = [reg("ST"), reg("EN"), Poly.c(K), reg("BUFS"), reg("NS"), reg("NE"), reg("NB"), U, reg("CNT")]
        I = Interp(S, oracle=oc, cell=cell)
        res = I.run(fn, args, p)
        bad = {}
        for rv, q in res:
            chk.count("paths")
            e = q.extra[0]
            orders = [e[0]] if e else [o for o in oc.orders if pre(0, o)]
            for order in orders:
                rank = {n: i for i, c in enumerate(order) for n in c}
                # expected merged intervals
                exp = []
                for i in range(K):
                    if exp and rank["s%d" % i] <= rank[exp[-1][1]]:
                        if rank["e%d" % i] > rank[exp[-1][1]]:
                            exp[-1][1] = "e%d" % i
                    else:
                        exp.append(["s%d" % i, "e%d" % i])
                P = lambda n: A(n[0], int(n[1:]))
                rep = {}
                for c in order:
                    f = sorted(c)[0]
                    for n in c:
                        rep[("in", n[0], int(n[1:]))] = P(f)
                X = lambda p: p.subst(lambda a: rep.get(a))
                desc = " < ".join("=".join(sorted(c)) for c in order)
                cnt = q.mem.get((("reg", "CNT"), 0))
                if cnt is None or cnt.const() != len(exp):
                    bad.setdefault("count", "%d cached regions with %s are merged into %r instead of %d" % (K, desc, cnt, len(exp)))
                    continue
                ns, ne, nb = (q.mem.get((("reg", n), 0), Poly.a(("unset",))) for n in ("NS", "NE", "NB"))
                cp = [ev for ev in q.events if ev[0] == "memcpy"]
                for j, (a, b) in enumerate(exp):
                    gs, ge, gb = (I.load(x + Poly.c(8 * j), q) for x in (ns, ne, nb))
                    if X(gs) != X(P(a)) or X(ge) != X(P(b)):
                        bad.setdefault("bounds", "regions with %s: merged region %d is [%r, %r), expected [%s, %s)" %
                                       (desc, j, gs, ge, a, b))
                        continue
                    # the pieces copied into it tile it, from the right source offsets
                    cur = X(P(a))
                    pieces = []
                    for ev in cp:
                        d = X(ev[1] - gb)
                        if any(isinstance(t, tuple) and t[0] == "reg" for t in d.atoms()):
                            continue
                        pieces.append((d, ev))
                    ok = True
                    end = X(P(b))
                    todo = list(pieces)
                    while cur != end:
                        nxt = None
                        for d, ev in todo:
                            if d == (cur - X(P(a))) * U:
                                nxt = (d, ev); break
                        if nxt is None:
                            ok = False; break
                        todo.remove(nxt)
                        ln = X(nxt[1][3])
                        q1 = I.arith("udiv", ln, U, None)
                        r, off = I.split(nxt[1][2])
                        if r is None or not isinstance(r[1], tuple) or r[1][0] != "buf":
                            ok = False; break
                        si = X(A("s", r[1][1]))
                        if X(off) != (cur - si) * U:
                            bad.setdefault("source", "regions with %s: element %r of merged region %d is taken "
                                           "from byte %r of cached region %d, expected byte %r" %
                                           (desc, cur, j, off, r[1][1], (cur - si) * U))
                            ok = None; break
                        cur = X(cur + q1)
                    if ok is False:
                        bad.setdefault("tile", "regions with %s: merged region %d is not filled from %r on" % (desc, j, cur))
        for k in ("count", "bounds", "tile", "source"):
            chk.oblige(k not in bad, "merge_requests:%s:%d" % (k, K), "%s (merge_requests): %s" % (fn.where(), bad.get(k, "")),
                       "merge_requests %d regions: %d traces" % (K, len(res)))
