"""R01: region predicates and intersection agree with set semantics.  Every predicate is abstractly
interpreted over all orderings of the two regions' end points per dimension (1..3 dimensions)."""
import ir
from report import Check
from absint import Interp, Path, reg
from order import OrderOracle, decide
from sym import Poly
from frontend import AnalysisBroken

PID = "R01"


def atom(*k):
    return Poly.a(("in",) + k)


def arr_cells(names):
    """names: region name -> (symbol, 'arr') for uint64_t arrays"""
    def cell(r, off):
        nm = r[1]
        if nm in names and off % 8 == 0 and off >= 0:
            return atom(names[nm], off // 8)
        return None
    return cell


def overlap_of(order):
    rank = {n: i for i, c in enumerate(order) for n in c}
    return max(rank["s1"], rank["s2"]) < min(rank["e1"], rank["e2"])


def contained_of(order):
    rank = {n: i for i, c in enumerate(order) for n in c}
    return rank["s2"] <= rank["s1"] and rank["e1"] <= rank["e2"]


def contains_of(order):
    rank = {n: i for i, c in enumerate(order) for n in c}
    return rank["s1"] <= rank["s2"] and rank["e2"] <= rank["e1"]


def describe(extra):
    out = []
    for k, e in enumerate(extra):
        if e is None:
            out.append("dim %d: any" % k)
        else:
            out.append("dim %d: %s" % (k, " < ".join("=".join(sorted(c)) for c in e[0])))
    return "; ".join(out)


def oracle(nd):
    dims = []
    for k in range(nd):
        dims.append({"s1": atom("o1", k), "e1": atom("o1", k) + atom("c1", k),
                     "s2": atom("o2", k), "e2": atom("o2", k) + atom("c2", k)})
    return OrderOracle(dims, [("s1", "e1"), ("s2", "e2")])


def expect(extra, test, allq=True):
    """truth of 'for all dims test' under a partial state: True/False/None"""
    vals = [None if e is None else test(e[0]) for e in extra]
    if False in vals:
        return False
    if None in vals:
        return None
    return True


def expected_region_list(P, nd):
    st = P.structs.get("pdc_region_list_t") or P.structs.get("region_list_t")
    if not st:
        raise AnalysisBroken("region_list_t layout not found")
    m = {n: (bo // 8, bs // 8, t) for n, bo, bs, t in st["m"]}
    return m


def is_eq(oc, extra, p):
    r = oc.lin(p)
    if r is None:
        return p.const() == 0
    co, c0 = r
    if any(extra[q[0]] is None for q in co):
        return False
    lo, hi, imp = oc.interval(extra, co, c0)
    return lo is not None and lo == hi == 0


def run():
    chk = Check(PID, "for every ordering of both regions' end points in 1..3 dimensions: overlap is reported iff every "
                "dimension shares an element, the computed intersection is [max start, min end), containment and "
                "identity are reported iff they hold")
    S = ir.program("server")
    chk.assumptions += ["offset + size does not wrap", "both regions have size >= 1 in every dimension"]
    A = {"A1": "o1", "C1": "c1", "A2": "o2", "C2": "c2"}
    cell = arr_cells(A)
    arg = {k: reg(k) for k in A}

    def boolcheck(name, args, test, truth, what, cellf=cell, nds=(1, 2, 3), null=()):
        fn = S.fn(name)
        for nd in nds:
            oc = oracle(nd)
            p = Path(); p.extra = oc.init()
            res = Interp(S, oracle=oc, cell=cellf(nd) if cellf is not cell else cell).run(fn, args(nd), p)
            chk.count("partitions", len(res))
            bad = {}
            for rv, q in res:
                want = expect(q.extra, test)
                got = rv.const() if rv is not None else None
                if got is None:
                    raise AnalysisBroken("%s: result is not decided" % name)
                g = truth(got)
                chk.count("decisions")
                if want is None:
                    bad.setdefault("partial", "%s (%s): reports %s with %s after looking only at %s" %
                                   (fn.where(), name, what, g, describe(q.extra)))
                elif g != want:
                    bad.setdefault("wrong", "%s (%s): %dD regions with %s are reported %s %s" %
                                   (fn.where(), name, nd, describe(q.extra), "as" if g else "as not", what))
            for k in ("partial", "wrong"):
                chk.oblige(k not in bad, "%s:%s:%d" % (name, k, nd), bad.get(k, ""),
                           "%s %dD: %d partitions" % (name, nd, len(res)))
            yield nd, oc, res

    def drain(g):
        with chk.part("predicate"):
            for _ in g:
                pass

    N = lambda nd: Poly.c(nd)
    five = lambda nd: [N(nd), arg["A1"], arg["C1"], arg["A2"], arg["C2"]]
    drain(boolcheck("check_overlap", five, overlap_of, lambda v: v != 0, "overlapping"))
    drain(boolcheck("PDC_is_contiguous_start_count_overlap", five, overlap_of, lambda v: v == 1, "overlapping"))
    tail = lambda nd: [arg["A1"], arg["C1"], arg["A2"], arg["C2"], N(nd)]
    drain(boolcheck("detect_region_contained", tail, contained_of, lambda v: v != 0, "contained"))

    # region_list_t based
    m = expected_region_list(S, 3)

    def lcell(nd):
        def cell(r, off):
            if r[1] in ("LA", "LB"):
                i = "1" if r[1] == "LA" else "2"
                if off == m["ndim"][0]:
                    return Poly.c(nd)
                for f, s in (("start", "o"), ("count", "c")):
                    o, z, t = m[f]
                    if o <= off < o + z and (off - o) % 8 == 0:
                        return atom(s + i, (off - o) // 8)
            return None
        return cell
    two = lambda nd: [reg("LA"), reg("LB")]
    drain(boolcheck("PDC_is_contiguous_region_overlap", two, overlap_of, lambda v: v == 1, "overlapping", lcell))

    # intersections
    def inter(name, args, getout, failed):
        fn = S.fn(name)
        for nd in (1, 2, 3):
            oc = oracle(nd)
            p = Path(); p.extra = oc.init()
            I = Interp(S, oracle=oc, cell=cell)
            res = I.run(fn, args(nd), p)
            chk.count("partitions", len(res))
            bad = {}
            for rv, q in res:
                want = expect(q.extra, overlap_of)
                f = failed(I, rv, q)
                chk.count("decisions")
                if want is None or f == want:
                    bad.setdefault("when", "%s (%s): %dD regions with %s: intersection %s" %
                                   (fn.where(), name, nd, describe(q.extra), "refused" if f else "computed"))
                    continue
                if f:
                    continue
                for k in range(nd):
                    o, c = getout(I, q, k)
                    e = q.extra[k][0]
                    rank = {n: i for i, cl in enumerate(e) for n in cl}
                    s = "s1" if rank["s1"] >= rank["s2"] else "s2"
                    t = "e1" if rank["e1"] <= rank["e2"] else "e2"
                    sp = oc.dims[k][s]; tp = oc.dims[k][t]
                    if not is_eq(oc, q.extra, o - sp):
                        bad.setdefault("start", "%s (%s): start of the common part in dimension %d is %r when %s" %
                                       (fn.where(), name, k, o, describe(q.extra)))
                    if not is_eq(oc, q.extra, o + c - tp):
                        bad.setdefault("size", "%s (%s): size of the common part in dimension %d is %r when %s" %
                                       (fn.where(), name, k, c, describe(q.extra)))
            for k in ("when", "start", "size"):
                chk.oblige(k not in bad, "%s:%s:%d" % (name, k, nd), bad.get(k, ""), "%s %dD intersection" % (name, nd))

    def out_detect(I, q, k):
        un = Poly.a(("unset",))
        ob = q.mem.get((("reg", "OUTO"), 0), un); sb = q.mem.get((("reg", "OUTS"), 0), un)
        return I.load(ob + Poly.c(8 * k), q), I.load(sb + Poly.c(8 * k), q)

    def f_detect(I, rv, q):
        v = q.mem.get((("reg", "OUTO"), 0))
        return v is not None and v.const() == 0
    with chk.part("PDC_region_overlap_detect"):
        inter("PDC_region_overlap_detect", lambda nd: five(nd) + [reg("OUTO"), reg("OUTS")], out_detect, f_detect)
    with chk.part("PDC_get_overlap_start_count"):
        inter("PDC_get_overlap_start_count", lambda nd: five(nd) + [reg("OUTO"), reg("OUTS")],
          lambda I, q, k: (I.load(reg("OUTO") + Poly.c(8 * k), q), I.load(reg("OUTS") + Poly.c(8 * k), q)),
          lambda I, rv, q: rv.const() != 0)

    # relation classification: one distinct answer per relation
    def relation():
        fn = S.fn("PDC_check_region_relation")
        cls = {}; bad = None
        for nd in (1, 2):
            oc = oracle(nd)
            p = Path(); p.extra = oc.init()
            res = Interp(S, oracle=oc, cell=cell).run(fn, tail(nd), p)
            chk.count("partitions", len(res))
            for rv, q in res:
                a, b, o = (expect(q.extra, t) for t in (contained_of, contains_of, overlap_of))
                if a is True:
                    c = "contained"
                elif a is False and b is True:
                    c = "containing"
                elif a is False and b is False and o is not None:
                    c = "overlapping" if o else "disjoint"
                else:
                    bad = "%s (PDC_check_region_relation): decides after looking only at %s" % (fn.where(), describe(q.extra))
                    continue
                chk.count("decisions")
                cls.setdefault(c, {}).setdefault(rv.const(), describe(q.extra))
        vals = [next(iter(v)) for v in cls.values()]
        for c, v in sorted(cls.items()):
            if len(v) > 1 or None in v:
                bad = "%s (PDC_check_region_relation): %s regions are classified differently: %s" % (fn.where(), c, v)
        if bad is None and len(set(vals)) != 4:
            bad = "%s (PDC_check_region_relation): relations are not distinguished: %s" % (
                fn.where(), {c: list(v) for c, v in cls.items()})
        chk.oblige(bad is None, "PDC_check_region_relation", bad or "", "PDC_check_region_relation distinguishes 4 relations")

    if "PDC_check_region_relation" in S.fns:
        with chk.part("relation"):
            relation()

    # identity
    def ident(name, struct):
        if name not in S.fns:
            return
        fn = S.fn(name)
        sm = {n: (bo // 8, bs // 8) for n, bo, bs, t in S.structs[struct]["m"]}
        for nd in (1, 2, 3):
            def icell(r, off, nd=nd):
                if r[1] in ("LA", "LB"):
                    i = "1" if r[1] == "LA" else "2"
                    if off == sm["ndim"][0]:
                        return Poly.c(nd)
                    for n, (o, z) in sm.items():
                        if n in ("start", "count") and o <= off < o + z:
                            return atom(n[0] + i, (off - o) // 8)
                        if n[:6] in ("start_", "count_") and off == o:
                            return atom(n[0] + i, int(n[6:]))
                return None
            res = Interp(S, cell=icell).run(fn, [reg("LA"), reg("LB")])
            chk.count("partitions", len(res))
            bad = None
            for rv, q in res:
                eqs = [q.facts.get(("eq", (atom(f + "1", k) - atom(f + "2", k)).key())) for k in range(nd) for f in "sc"]
                same = all(e is True for e in eqs)
                diff = any(e is False for e in eqs)
                got = rv.const()
                chk.count("decisions")
                if got is None:
                    raise AnalysisBroken("%s undecided" % name)
                if (got >= 0 and not same) or (got < 0 and not diff):
                    bad = "%s (%s): %dD regions are reported %s although %s" % (
                        fn.where(), name, nd, "identical" if got >= 0 else "different",
                        "not every start and count was found equal" if got >= 0 else "none was found to differ")
            chk.oblige(bad is None, "%s:identity:%d" % (name, nd), bad or "", "%s %dD identity" % (name, nd))
    with chk.part("PDC_is_same_region_list"):
        ident("PDC_is_same_region_list", "region_list_t" if "region_list_t" in S.structs else "pdc_region_list_t")
    with chk.part("is_region_identical"):
        ident("is_region_identical", "region_list_t" if "region_list_t" in S.structs else "pdc_region_list_t")
    with chk.part("PDC_is_same_region_transfer"):
        ident("PDC_is_same_region_transfer", "region_info_transfer_t")
    with chk.part("is_region_transfer_t_identical"):
        ident("is_region_transfer_t_identical", "region_info_transfer_t")

    chk.floor("obligations", 30)
    chk.floor("partitions", 1000)
    chk.analysed = {"functions": ["check_overlap", "PDC_region_overlap_detect", "detect_region_contained",
                                  "PDC_is_contiguous_region_overlap", "PDC_is_contiguous_start_count_overlap",
                                  "PDC_get_overlap_start_count", "PDC_is_same_region_list", "is_region_identical",
                                  "PDC_is_same_region_transfer", "is_region_transfer_t_identical"],
                    "configuration": "server", "dimensions": [1, 2, 3]}
    return chk.finish("Each predicate was abstractly interpreted over the complete finite partition of end-point orderings "
                      "(weak orders with gap classes) instead of concrete coordinates; every partition's verdict and "
                      "computed intersection was compared with set semantics.")
