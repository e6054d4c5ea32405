"""Q01: the elements a data query selects are those that satisfy it.  The client's making of conditions and combinations of them, and
the server's evaluation of them over the stored regions - reading, skipping by histogram or selected region, scanning, combining - are
abstractly interpreted.  Values and elements are symbols known only by their order; what a machine type does to each symbol is
followed, so that a value read back as another type than it was stored as is no value at all."""
import os
import itertools
import ir
from k01 import World, Group
from o01 import DW
from report import Check
from absint import Interp, Path
from sym import Poly
from cstr import lit
from frontend import AnalysisBroken

PID = "Q01"
c = Poly.c
NULL = c(0)
QUERY, CON, LIST, SEL, TASK, HIST, RINFO = ("pdc_query_t", "pdc_query_constraint_t", "region_list_t", "pdcquery_selection_t", "query_task_t", "pdc_histogram_t", "pdc_region_info")
XFER, RXFER, DSR = "pdc_query_xfer_t", "region_info_transfer_t", "data_server_region_t"
FITS = {"int": {"int", "int64", "double"}, "uint": {"uint", "int64", "uint64", "double"}, "int64": {"int64"}, "uint64": {"uint64"},
        "float": {"float", "double"}, "double": {"double"}, "hist": {"double"}}
IRTY = {"int": "i32", "uint": "i32", "int64": "i64", "uint64": "i64", "float": "float", "double": "double", "double~": "double"}
SIZE = {"int": 4, "uint": 4, "int64": 8, "uint64": 8, "float": 4, "double": 8}
ENUM = {"int": "PDC_INT", "uint": "PDC_UINT", "int64": "PDC_INT64", "uint64": "PDC_UINT64", "float": "PDC_FLOAT", "double": "PDC_DOUBLE"}
OPS = {"PDC_GT": lambda e, v: e > v, "PDC_LT": lambda e, v: e < v, "PDC_GTE": lambda e, v: e >= v, "PDC_LTE": lambda e, v: e <= v, "PDC_EQ": lambda e, v: e == v}


def cv(kind, name):
    return Poly.a(("cv", kind, "double" if kind == "hist" else kind, name))


def sole(v):
    """the symbol a value is, if it is one"""
    if len(v.t) == 1:
        m = next(iter(v.t))
        if len(m) == 1 and v.t[m] == 1 and isinstance(m[0], tuple) and m[0][0] in ("cv", "mis"):
            return m[0]
    return None


class QW(DW):
    def __init__(self, P):
        DW.__init__(self, P, {})
        self.globals = {"pdc_server_rank_g": 0, "pdc_server_size_g": 1, "is_debug_g": 0, "use_fastbit_idx_g": 0, "gen_hist_g": 0, "pdc_data_server_read_list_head_g": 0}
        self.rank = {}; self.disk = {}; self.mis = None; self.gone = None
        self.coarse = False
        self.I.typed = self.convert
        self.I.max_steps = 200000
        W = self; load = self.I.load; comp = self.I.compare

        def tload(p, path, ty=None):
            if p.const() is not None and W.mis is None:
                W.mis = "%s: reads through a null pointer" % W.loc(W.I.here)
            v = load(p, path, ty)
            a = sole(v)
            if a is not None and a[0] == "cv" and ty is not None:
                rep = a[2].rstrip("@")
                if ty != IRTY[rep]:
                    if SIZE.get(rep, 8) > {"double": 8, "i64": 8}.get(ty, 0):
                        return W.wrong("takes a part of a value of type %s" % a[1], a[3])
                    rep += "@"                      # its bits, as those of another type: good for copying only
                return Poly.a(("cv", a[1], rep, a[3]))
            return v

        def tcomp(path, pr, a, b):
            x, y = sole(a), sole(b)
            if x is None and y is None:
                if any(isinstance(t, tuple) and t[0] in ("cv", "mis") for t in (a - b).atoms()):
                    W.wrong("computes with a value before it compares it", "")
                    return False
                return comp(path, pr, a, b)
            if x is None or y is None or x[0] == "mis" or y[0] == "mis":
                z = x or y
                W.wrong("compares the value with something that is not one", z[-1])
                return False
            for z in (x, y):
                if z[2].endswith("@"):
                    W.wrong("takes a value of type %s for another" % z[1], z[3])
                    return False
            core = pr if pr in ("eq", "ne") else pr[1:]
            if x[2] in ("uint", "uint64") or y[2] in ("uint", "uint64"):
                if core != pr and pr[0] == "s":
                    W.wrong("compares unsigned values as signed", x[3])
            elif x[2] in ("int", "int64") and core != pr and pr[0] == "u":
                W.wrong("compares signed values as unsigned", x[3])
            d = W.rank[x[3]] - W.rank[y[3]]
            if "double~" in (x[2], y[2]) and W.coarse:      # rounding may have made any two of them equal
                d = 0
            return {"eq": d == 0, "ne": d != 0, "gt": d > 0, "ge": d >= 0, "lt": d < 0, "le": d <= 0}[core]
        self.I.load = tload; self.I.compare = tcomp

    def wrong(self, what, name):
        if self.mis is None:
            self.mis = "%s: %s" % (self.loc(self.I.here), what)
        return Poly.a(("mis", name))

    def convert(self, op, v, ft, ty):
        a = sole(v)
        if a is None or a[0] == "mis" or op in ("freeze",):
            return v
        _, orig, rep, name = a
        if rep.endswith("@"):
            return self.wrong("takes a value of type %s for another" % orig, name)
        if op in ("fpext", "fptrunc"):
            new = ty
        elif op in ("sitofp", "uitofp"):
            if (rep in ("int", "int64")) != (op == "sitofp"):
                return self.wrong("converts a value of the other sign", name)
            new = ty
        elif op in ("fptosi", "fptoui"):
            new = ("" if op == "fptosi" else "u") + {"i32": "int", "i64": "int64"}.get(ty, "?")
        elif op in ("sext", "zext"):
            if (rep == "int") != (op == "sext"):
                return self.wrong("widens a value of the other sign", name)
            new = {"int": "int64", "uint": "uint64"}.get(rep, "?")
        elif op == "trunc":
            new = {"int64": "int", "uint64": "uint"}.get(rep, "?")
        else:
            return self.wrong("reinterprets the value", name)
        if rep == "double~" and new != "double~":
            return self.wrong("uses a rounded value", name)
        if new in FITS[orig]:
            return Poly.a(("cv", orig, new, name))
        if new == "double" and orig in ("int64", "uint64"):
            return Poly.a(("cv", orig, "double~", name))
        return self.wrong("a value of type %s does not survive as %s" % (orig, new), name)

    # ---- files and the library
    def ext(self, f, args, path, x):
        st = path.extra or {}
        if f and f.startswith(("memcpy", "llvm.memcpy", "memmove", "llvm.memmove")):
            (r, o), n = Interp.split(args[1]), args[2].const()
            if n is not None and n < 8 and r is not None and o.const() is not None:
                for k in range(n):
                    a = sole(path.mem.get((r, o.const() + k), NULL))
                    if a is not None and a[0] == "cv" and k + SIZE.get(a[2].rstrip("@"), 8) > n:
                        self.wrong("takes a part of a value of type %s" % a[1], a[3])
            return None
        if f == "PDC_find_id":
            return NULL
        if f == "PDC_Server_send_query_result_to_client":
            self.answer = self.hits(path, self.ptr(path, self.ptr(path, args[0], TASK, "query"), QUERY, "sel"))
            return NULL
        if f == "fopen":
            s = self.S.get(args[0], path, x)
            name = s.decode() if s is not None else None
            if name not in self.disk:
                return NULL
            path.extra = dict(st, open=(name, 0))
            return Poly.a(("reg", ("arg", "file")))
        if f == "fclose":
            path.extra = {k: v for k, v in st.items() if k != "open"}
            return NULL
        if f == "ftell":
            return c(st["open"][1])
        if f == "fseek":
            n, w = args[1].const(), args[2].const()
            if n is None or w not in (0, 1):
                raise AnalysisBroken("seek is not followed")
            name, pos = st["open"]
            path.extra = dict(st, open=(name, n if w == 0 else pos + n))
            return NULL
        if f == "fread":
            n = args[1].const() * args[2].const()
            name, pos = st["open"]
            r, o = Interp.split(args[0])
            self.I.bound(args[0], n, path)
            for k in range(n):
                if pos + k in self.disk[name]:
                    path.mem[(r, o.const() + k)] = self.disk[name][pos + k]
            path.extra = dict(st, open=(name, pos + n))
            return c(n // args[1].const())
        if f == "qsort":
            n, z = args[1].const(), args[2].const()
            r, o = Interp.split(args[0]); o = o.const()
            rows = [tuple(self.I.load(c(0) + args[0] + c(i * z + j), path).const() for j in range(0, z, 8)) for i in range(n)]
            if any(v is None for t in rows for v in t):
                raise AnalysisBroken("unknown coordinates are sorted")
            for i, t in enumerate(sorted(rows)):
                for j, v in enumerate(t):
                    path.mem[(r, o + i * z + 8 * j)] = c(v)
            return NULL
        if f == "memcmp":
            n = args[2].const()
            if n is not None and n % 8 == 0:
                for j in range(0, n, 8):
                    if self.I.load(args[0] + c(j), path) != self.I.load(args[1] + c(j), path):
                        return c(1)
                return NULL
        if f in ("gettimeofday", "fflush", "pthread_mutex_lock", "pthread_mutex_unlock"):
            return NULL
        return DW.ext(self, f, args, path, x)

    def hits(self, q, sl):
        n = self.ptr(q, sl, SEL, "nhits").const()
        if n is None:
            raise AnalysisBroken("the number of hits is not known")
        b = self.ptr(q, sl, SEL, "coords")
        return [self.I.load(b + c(8 * i), q).const() for i in range(n)]

    def do(self, path, fn, *args):
        self.mis = None
        try:
            v, q, bad = DW.do(self, path, fn, *args)
        except AnalysisBroken:
            if self.mis:
                return None, path, self.mis
            raise
        return v, q, bad or self.mis

    def ptr(self, path, p, st, field):
        return self.I.load(p + c(self.L.off(st, field)), path)


class Q:
    def __init__(self, G):
        self.G = G
        self.C = QW(ir.program("client")); self.S = QW(ir.program("server"))
        self.e = {}
        for n, e in self.C.P.enums.items():
            try:
                self.e.update(dict(e.items() if isinstance(e, dict) else e))
            except (TypeError, ValueError):
                pass

    # ---- the client makes a query, and what it sends of it
    def client(self, t, ranks, hist, sel, at=-1):
        """t: ("leaf", object, kind, operation, value name) | ("and"|"or", t, t) -> what is sent, or None"""
        W = self.C; W.rank = ranks
        p = Path(); p.extra = {}
        rg = None
        if sel:
            rg = W.struct(p, "selected", RINFO); k = Interp.split(rg)[0]; p.zero = p.zero | {k}
            off = W.out(p, "offset", 8, c(sel[0])); n = W.out(p, "length", 8, c(sel[1]))
            for f, v in (("ndim", c(1)), ("offset", off), ("size", n)):
                p.mem[(k, W.L.off(RINFO, f))] = v
        r = self.make(p, t, hist, [0], rg, at)
        if r is None:
            return None
        p, q = r
        if sel and at < 0:
            r = self.call(W, "select a region", hist, p, "PDCquery_sel_region", q, rg)
            if r is None:
                return None
            p = r[1]
        r = self.call(W, "put a query into a request", hist, p, "PDC_serialize_query", q)
        if r is None:
            return None
        x, p = r
        g = lambda f: W.ptr(p, x, XFER, f)
        n, m = g("n_constraints").const(), g("n_combine_ops").const()
        if n is None or m is None:
            raise AnalysisBroken("the size of a request is not known")
        K = W.P.structs[CON]["size"]
        return ([{f: W.I.load(g("constraints") + c(K * i + o), p) for f, (o, z, ty) in W.L.fields(CON).items()} for i in range(n)],
                [W.I.load(g("combine_ops") + c(4 * i), p) for i in range(m)],
                {f: W.I.load(x + c(W.L.off(XFER, "region") + o), p) for f, (o, z, ty) in W.L.fields(RXFER).items()})

    def make(self, p, t, hist, n, rg=None, at=-1):
        W = self.C
        if t[0] == "leaf":
            _, obj, kind, op, v = t
            n[0] += 1
            b = W.out(p, "value%d" % n[0], SIZE[kind], cv(kind, v))
            x = self.call(W, "make a condition", hist, p, "PDCquery_create", c(obj), c(self.e[op]), c(self.e[ENUM[kind]]), b)
        else:
            a = self.make(p, t[1], hist, n, rg, at)
            a2 = a and self.make(a[0], t[2], hist, n, rg, at)
            if not a2:
                return None
            x = self.call(W, "combine conditions", hist, a2[0], "PDCquery_" + t[0], a[1], a2[1])
        if x is None:
            return None
        v, q = x
        if v == NULL:
            self.G.judge("make a query", "there is none (%s)" % hist, True, "")
            return None
        if t[0] == "leaf" and n[0] == at:
            x = self.call(W, "select a region", hist, q, "PDCquery_sel_region", v, rg)
            if x is None:
                return None
            q = x[1]
        return q, v

    def call(self, W, op, hist, p, fn, *args):
        v, q, bad = W.do(p, fn, *args)
        self.G.judge(op, bad and "%s (%s)" % (bad, hist), True, "")
        return None if bad or q is None else (v, q)

    # ---- the server
    def server(self, sent, regions, kinds, hist_on, hist, whole=False, alloc=2):
        """regions: object -> [(start, [element names])]; -> set of coordinates"""
        W = self.S
        p = Path(); p.extra = {}
        W.globals["gen_hist_g"] = int(hist_on)
        W.disk = {}
        heads = {}
        for obj, rs in regions.items():
            z = SIZE[kinds[obj]]; disk = {}; pos = 16
            nodes = []
            for i, (start, els) in enumerate(rs):
                tag = "region%d_%d" % (obj, i)
                h = NULL
                if hist_on:
                    lo, hi = min(els, key=lambda e: W.rank[e]), max(els, key=lambda e: W.rank[e])
                    rg = W.out(p, tag + "range", 32)
                    mid = cv("hist", lo)
                    for k, v in enumerate((cv("hist", lo), mid, mid, cv("hist", hi))):
                        p.mem[(Interp.split(rg)[0], 8 * k)] = v
                    h = W.struct(p, tag + "hist", HIST, dtype=NULL, nbin=c(2), incr=NULL, range=rg, bin=NULL)
                F = W.L.fields(LIST)
                q = W.struct(p, tag, LIST)
                r = Interp.split(q)[0]
                p.zero = p.zero | {r}
                for f, v in (("ndim", c(1)), ("start", c(start * z)), ("count", c(len(els) * z)), ("data_size", c(len(els) * z)), ("unit_size", c(z)), ("offset", c(pos)),
                             ("obj_id", c(obj)), ("region_hist", h)):
                    p.mem[(r, F[f][0])] = v
                for k, ch in enumerate(b"file%d\0" % obj):
                    p.mem[(r, F["storage_location"][0] + k)] = c(ch)
                for k, e in enumerate(els):
                    disk[pos + k * z] = cv(kinds[obj], e)
                pos += len(els) * z
                nodes.append((q, r))
            W.disk["file%d" % obj] = disk
            F = W.L.fields(LIST)
            for i, (q, r) in enumerate(nodes):
                p.mem[(r, F["prev"][0])] = nodes[i - 1][0]
                p.mem[(r, F["next"][0])] = nodes[i + 1][0] if i + 1 < len(nodes) else NULL
            heads[obj] = nodes[0][0]
        def request(p, sent, i):
            cons, ops, region = sent
            K = W.P.structs[CON]["size"]
            kr = Interp.split(W.out(p, "constraints%d" % i, K * len(cons)))[0]; p.zero = p.zero | {kr}
            for j, d in enumerate(cons):
                for f, v in d.items():
                    p.mem[(kr, K * j + W.L.off(CON, f))] = v
            orr = Interp.split(W.out(p, "ops%d" % i, 4 * len(ops)))[0]
            for j, v in enumerate(ops):
                p.mem[(orr, 4 * j)] = v
            xf = W.struct(p, "request%d" % i, XFER); r = Interp.split(xf)[0]; p.zero = p.zero | {r}
            for f, v in (("n_constraints", c(len(cons))), ("n_combine_ops", c(len(ops))), ("constraints", Poly.a(kr)), ("combine_ops", Poly.a(orr)), ("query_id", c(5 + i)),
                         ("n_unique_obj", c(len(regions))), ("get_op", c(self.e["PDC_QUERY_GET_SEL"]))):
                p.mem[(r, W.L.off(XFER, f))] = v
            for f, v in region.items():
                p.mem[(r, W.L.off(XFER, "region") + W.L.off(RXFER, f))] = v
            return xf
        if whole:
            prev = None
            for obj, h in heads.items():
                k = W.struct(p, "object%d" % obj, DSR); z = Interp.split(k)[0]; p.zero = p.zero | {z}
                p.mem[(z, W.L.off(DSR, "obj_id"))] = c(obj); p.mem[(z, W.L.off(DSR, "region_storage_head"))] = h
                p.mem[(z, W.L.off(DSR, "prev"))] = prev or k
                if prev is None:
                    p.mem[(("reg", ("glob", "dataserver_region_g")), 0)] = first = k
                else:
                    p.mem[(Interp.split(prev)[0], W.L.off(DSR, "next"))] = k
                prev = k
            p.mem[(Interp.split(first)[0], W.L.off(DSR, "prev"))] = prev
            answers = []
            for i, one in enumerate(sent):
                cb = W.out(p, "callback", 64); p.zero = p.zero | {Interp.split(cb)[0]}
                p.mem[(Interp.split(cb)[0], W.L.off("hg_cb_info", "arg"))] = request(p, one, i)
                W.answer = None
                x = self.call(W, "receive and answer a query", hist, p, "PDC_Server_recv_data_query", cb)
                if x is None:
                    return None
                if W.answer is None:
                    self.G.judge("receive and answer a query", "no result is sent (%s)" % hist, True, "")
                    return None
                answers.append(W.answer); p = x[1]
            return answers
        x = self.call(W, "take a query out of a request", hist, p, "PDC_deserialize_query", request(p, sent, 0))
        if x is None:
            return None
        root, p = x
        hr = Interp.split(W.out(p, "coords", 8 * alloc))[0]
        sl = W.struct(p, "sel", SEL); r = Interp.split(sl)[0]; p.zero = p.zero | {r}
        F = W.L.fields(SEL)
        p.mem[(r, F["coords_alloc"][0])] = c(alloc); p.mem[(r, F["coords"][0])] = Poly.a(hr)

        def attach(q):
            if q == NULL:
                return
            p.mem[(Interp.split(q)[0], Interp.split(q)[1].const() + W.L.off(QUERY, "sel"))] = sl
            k = W.ptr(p, q, QUERY, "constraint")
            if k != NULL:
                kr, ko = Interp.split(k)
                p.mem[(kr, ko.const() + W.L.off(CON, "storage_region_list_head"))] = heads.get(W.I.load(k + c(W.L.off(CON, "obj_id")), p).const(), NULL)
            attach(W.ptr(p, q, QUERY, "left")); attach(W.ptr(p, q, QUERY, "right"))
        attach(root)
        tk = W.struct(p, "task", TASK); p.zero = p.zero | {Interp.split(tk)[0]}
        r = Interp.split(tk)[0]; F = W.L.fields(TASK)
        p.mem[(r, F["query"][0])] = root; p.mem[(r, F["region_constraint"][0])] = W.ptr(p, root, QUERY, "region_constraint")
        p.mem[(r, F["get_op"][0])] = c(self.e["PDC_QUERY_GET_SEL"])
        x = self.call(W, "evaluate", hist, p, "PDC_Server_do_query", tk)
        if x is None:
            return None
        return W.hits(x[1], sl)

    def judge(self, op, got, want, hist):
        if got is None:
            return
        w = None
        if len(got) != len(set(got)):
            w = "an element is selected twice"
        if set(got) != set(want):
            m = set(want) - set(got)
            w = "elements %s are selected instead of %s" % (sorted(got, key=lambda v: (v is None, v or 0)), sorted(want))
        self.G.judge(op, w and "%s (%s)" % (w, hist), True, "")
        self.G.chk.count("histories")

    def run(self, op, t, ranks, regions, kinds, truth, hist, hist_on=False, sel=None, whole=False, at=-1, coarse=False):
        self.S.coarse = coarse
        self.C.rank = self.S.rank = ranks
        loc = {}
        for obj, rs in regions.items():
            for start, els in rs:
                for k, e in enumerate(els):
                    loc.setdefault(start + k, {})[obj] = e
        want = lambda t: [x for x, d in loc.items() if truth(t, d, ranks) and (sel is None or sel[0] <= x < sel[0] + sel[1])]
        ts = t if whole else [t]
        sent = [self.client(u, ranks, hist, sel, at) for u in ts]
        if None in sent:
            return
        got = self.server(sent if whole else sent[0], regions, kinds, hist_on, hist, whole)
        for i, u in enumerate(ts):
            self.judge(op, (got[i] if got else None) if whole else got, want(u), hist + (", query %d" % (i + 1) if len(ts) > 1 else ""))


def truth(t, d, ranks):
    if t[0] == "leaf":
        return OPS[t[3]](ranks[d[t[1]]], ranks[t[4]])
    a, b = truth(t[1], d, ranks), truth(t[2], d, ranks)
    return a and b if t[0] == "and" else a or b


def named(rs):
    """regions given by ranks -> regions of names, and the ranks"""
    out = []; ranks = {}
    for i, (s, els) in enumerate(rs):
        n = []
        for k, v in enumerate(els):
            e = "e%d_%d" % (i, k); ranks[e] = v; n.append(e)
        out.append((s, n))
    return out, ranks


def layouts(values):
    """regions holding every subset of the values, each alone and in either order"""
    out = []; pos = 0
    for k in (1, 2, 3):
        for s in itertools.permutations(values, k):
            out.append((pos, list(s))); pos += k
    return out


def single(G, th):
    q = Q(G)
    for kind in SIZE:
        for op in OPS:
            for h in (False, True):
                rs, ranks = named(layouts((-1, 0, 1)))
                ranks["v"] = 0
                q.run("one condition", ("leaf", 7, kind, op, "v"), ranks, {7: rs}, {7: kind}, truth, "%s %s%s" % (kind, op, ", histograms" if h else ""), h)
                if h and "64" in kind:
                    q.run("one condition", ("leaf", 7, kind, op, "v"), ranks, {7: rs}, {7: kind}, truth, "%s %s, histograms of rounded values" % (kind, op), h, coarse=True)


def ranges(G, th):
    q = Q(G)
    for kind in SIZE:
        for lo, hi in itertools.product(("PDC_GT", "PDC_GTE"), ("PDC_LT", "PDC_LTE")):
            for flip in (False, True):
                for h in (False, True):
                    for order, vals in (("lower below upper", (-2, -1, 0, 1, 2)), ("equal bounds", (-2, -1, 2)), ("lower above upper", (-2, -1, 0, 1, 2))):
                        rs, ranks = named(layouts(vals) if th and h else [(5 + 3 * i, [a]) for i, a in enumerate(vals)] + [(40, list(vals))])
                        ranks["lo"] = -1; ranks["hi"] = 1 if "below" in order else -1
                        if "above" in order:
                            ranks["lo"], ranks["hi"] = 1, -1
                        a, b = ("leaf", 7, kind, lo, "lo"), ("leaf", 7, kind, hi, "hi")
                        for co in (False, True) if h and "64" in kind else (False,):
                            q.run("a range" if "above" not in order else "contradicting bounds", ("and", b, a) if flip else ("and", a, b), ranks, {7: rs}, {7: kind}, truth,
                                  "%s %s and %s, %s%s%s%s" % (kind, lo, hi, order, ", upper first" if flip else "", ", histograms" if h else "", " of rounded values" if co else ""), h, coarse=co)


def spatial(G, th):
    q = Q(G)
    for kind in ("int", "double"):
        for t, name in ((("leaf", 7, kind, "PDC_GTE", "v"), "one condition"), (("and", ("leaf", 7, kind, "PDC_GTE", "v"), ("leaf", 7, kind, "PDC_LT", "w")), "a range")):
            for s in range(0, 8):
                for n in range(1, 9 - s):
                    rs, ranks = named([(1, [0, -1, 0]), (4, [0, 0, -1])])
                    ranks["v"] = 0; ranks["w"] = 3
                    q.run(name + " within a selected region", t, ranks, {7: rs}, {7: kind}, truth, "%s, elements %d to %d" % (kind, s, s + n - 1), False, (s, n))
        w = "and", ("leaf", 7, kind, "PDC_LT", "w"), ("leaf", 7, kind, "PDC_GTE", "v")
        for at in (1, 2):
            q.run("a range within a region selected before", w, ranks, {7: rs}, {7: kind}, truth, "%s, selected with condition %d" % (kind, at), False, (2, 3), at=at)


def shapes():
    """conditions on two objects joined in the ways a client can join them"""
    A, B, C = (("leaf", 7, "int", "PDC_GT", "v"), ("leaf", 8, "float", "PDC_LTE", "w"), ("leaf", 7, "int", "PDC_EQ", "u"))
    R = ("and", ("leaf", 8, "float", "PDC_GT", "lo"), ("leaf", 8, "float", "PDC_LT", "hi"))
    D = ("leaf", 7, "int", "PDC_LT", "w")
    E = ("leaf", 9, "int", "PDC_LT", "w")
    for x, y in ((A, B), (A, R), (R, A), (A, C), (A, D), (B, R), (A, E), (E, A)):
        for op in ("and", "or"):
            yield (op, x, y)
    for o1, o2 in itertools.product(("and", "or"), repeat=2):
        for x, y, z in ((A, B, C), (A, R, B), (R, C, A)):
            yield (o2, (o1, x, y), z)
            yield (o1, x, (o2, y, z))
        yield (o1, (o2, A, B), ("and" if o2 == "or" else "or", C, R))


def text(t):
    if t[0] == "leaf":
        return "%s %s %s" % ({7: "a", 8: "b", 9: "c"}[t[1]], t[3][4:].lower(), t[4])
    return "(%s %s %s)" % (text(t[1]), t[0], text(t[2]))


def combos(G, th):
    q = Q(G)
    V = {"v": 0, "w": 1, "u": 2, "lo": -1, "hi": 1}
    vals = list(itertools.product((-1, 0, 1, 2), (-1, 0, 1, 2)))
    for t in shapes():
        big, small = ("large regions", (8, 16)), ("small regions", (2, 3, 4, 5, 6, 8, 9, 11, 12, 14, 16))
        other = sorted(vals, key=lambda v: (v[1], v[0]))
        for name, cuts, order in [big + (vals,), small + (vals[::-1],)] + ([big + (other,), small + (vals,), small + (other,)] if th else []):
            a, b, ranks = [], [], dict(V); s = 0
            for i, e in enumerate(order):
                ranks["a%d" % i], ranks["b%d" % i] = e
            for k in cuts:
                a.append((s, ["a%d" % i for i in range(s, k)])); b.append((s, ["b%d" % i for i in range(s, k)])); s = k
            for h in (False, True):
                q.run("combined conditions", t, ranks, {7: a, 8: b, 9: b}, {7: "int", 8: "float", 9: "int"}, truth, "%s, %s%s" % (text(t), name, ", histograms" if h else ""), h)


def whole(G, th):
    q = Q(G)
    for t in list(shapes())[:16]:
        for sel, at in ((None, -1), ((1, 2), -1), ((1, 2), 1), ((1, 2), 2)):
            ranks = {"v": 0, "w": 1, "u": 2, "lo": -1, "hi": 1, "a0": -1, "a1": 1, "a2": 2, "a3": 1, "b0": 0, "b1": 2, "b2": 0, "b3": 1}
            q.run("a query sent to one server", [t], ranks, {7: [(0, ["a0", "a1"]), (2, ["a2", "a3"])], 8: [(0, ["b0", "b1"]), (2, ["b2", "b3"])], 9: [(0, ["b0", "b1"]), (2, ["b2", "b3"])]}, {7: "int", 8: "float", 9: "int"}, truth,
                  "%s%s" % (text(t), ", elements 1 to 2" if sel else ""), False, sel, True, at)
    some = list(shapes())[:16]
    for t, u in [(x, y) for i, x in enumerate(some) for y in (some if th else some[i % 2::3])]:
        for h in (False, True):
            q.run("one query after another", [t, u], ranks, {7: [(0, ["a0", "a1"]), (2, ["a2", "a3"])], 8: [(0, ["b0", "b1"]), (2, ["b2", "b3"])], 9: [(0, ["b0", "b1"]), (2, ["b2", "b3"])]}, {7: "int", 8: "float", 9: "int"}, truth,
                  "%s, then %s%s" % (text(t), text(u), ", histograms" if h else ""), h, None, True)


def run():
    chk = Check(PID, "a data query selects exactly the elements that satisfy it")
    th = chk.tier == "thorough"
    for name, f in (("single", single), ("range", ranges), ("spatial", spatial), ("combined", combos), ("whole", whole)):
        if os.environ.get("Q01") and os.environ["Q01"] not in name:
            continue
        with Group(chk, name) as G:
            f(G, th)
    chk.assumptions += ["one dimension, all objects of a query cut into regions alike, and every region of them stored on the server that evaluates",
                        "a region's histogram spans its values (G01); the file of a region holds what was stored"]
    if not os.environ.get("Q01"):
        chk.floor("obligations", 30)
        chk.floor("histories", 600)
        chk.floor("steps", 4500)
    return chk.finish("conditions made and joined by the client, put into a request, taken out and evaluated by the server over stored regions; every history compared with the "
                      "elements that satisfy the query; values are symbols known by their order and machine type only")
