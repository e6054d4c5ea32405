"""A01: a client call that waits for servers returns when, and only when, every answer it asked for has arrived; it does not use
an answer that could not be decoded, does not report success without one, and gives its handles back once.  Typestate over the
waiting loops, over every callback an answer is handed to (summarised by what it lowers, decodes, stores and destroys) and, with
those summaries, over every function that asks or waits; on all paths, loops over servers for two servers."""
import ir
from esp import ESP
from report import Check
from frontend import AnalysisBroken

PID = "A01"
DECR = {"hg_atomic_incr32": 1, "hg_atomic_decr32": -1}
ALLOC = ("malloc", "calloc", "PDC_malloc", "PDC_calloc")
ASK = ("HG_Forward", "HG_Addr_lookup")
NZ = ("ne", frozenset([0]))
OK = ("i", 0)


def casts(f, r):
    for _ in range(20):
        x = f.val(r)
        if x is None or x.op not in ("bitcast", "addrspacecast", "freeze", "inttoptr", "ptrtoint"):
            return r
        r = x.args[0]
    return r


class World:
    def __init__(s, P):
        s.P = P; s.memo = {}; s.mw = {}
        m = {n[0]: n[1] // 8 for n in P.structs["hg_cb_info"]["m"]}
        s.ARG, s.RET = m["arg"], m["ret"]
        s.ORIGIN = {n[0]: n[1] // 8 for n in P.structs["hg_cb_info_bulk"]["m"]}["origin_handle"]
        s.TIMEOUT = None
        for e in P.enums.values():
            for k, v in (e.items() if isinstance(e, dict) else e):
                if k == "HG_TIMEOUT":
                    s.TIMEOUT = v
        if s.TIMEOUT is None:
            raise AnalysisBroken("HG_TIMEOUT not found")
        s.wait = {}                 # function -> counter
        for f in P.fns.values():
            if any(True for _ in f.calls("HG_Progress")):
                g = {s.counter(f, x.args[0]) for x in f.calls("hg_atomic_get32")} - {None}
                if len(g) == 1:
                    s.wait[f.name] = g.pop()
        s.idx = {g: i for i, g in enumerate(sorted(set(s.wait.values())))}
        s.zero = (0,) * len(s.idx)

    def counter(s, f, r):
        b, o = ir.ptr_base(f, r)
        if isinstance(b, list) and b and b[0] == "g":
            return b[1]
        x = f.val(casts(f, r))
        if x is not None and x.op == "load":                # through a pointer kept in a variable
            b, o = ir.ptr_base(f, x.args[0])
            if isinstance(b, list) and b and b[0] == "g":
                return "*" + b[1]
        return None

    def fnref(s, f, r):
        a = casts(f, r)
        return a[1] if isinstance(a, list) and a and a[0] == "g" else None

    def waits(s, n, seen=()):
        if n in s.wait:
            return True
        if n in s.mw:
            return s.mw[n]
        if n not in s.P.fns or n in seen:
            return False
        r = any(s.waits(x.callee, seen + (n,)) for x in s.P.fns[n].calls() if x.callee in s.P.fns)
        if not seen:
            s.mw[n] = r
        return r

    def cbk(s, n, nn=True):
        if ("c", n, nn) not in s.memo:
            s.memo["c", n, nn] = Callback(s, n, nn)
        return s.memo["c", n, nn]

    def bulk(s, n):
        if ("b", n) not in s.memo:
            s.memo["b", n] = Bulk(s, n)
        return s.memo["b", n]

    def pointers(s, f, b):
        y = f.val(b) if isinstance(b, int) else None
        if y is None or y.op != "alloca":
            return True
        t = y.d.get("at", "")
        return s.ptrs(t[2:]) if t.startswith("S:") else t.startswith("p")

    def ptrs(s, t, d=0):
        t = t.strip()
        if t.endswith("*") or "char*" in t:
            return True
        n = t.replace("struct ", "").replace("union ", "").split("[")[0].strip()
        q = s.P.structs.get(n)
        if q and d < 6:
            return any(s.ptrs(m[3], d + 1) for m in q["m"])
        return n in ("hg_string_t", "hg_const_string_t", "hg_bulk_t")


def put(st, o, sz, v):
    v = v[1] if v and v[0] == "i" else None
    return frozenset({q for q in st if q[0] >= o + sz or q[0] + q[1] <= o} | {(o, sz, v)})


def merge(a, b):
    for o, sz, v in b:
        a = put(a, o, sz, ("i", v) if v is not None else None)
    return a


class Values:
    """I the information a callback is given, A its argument, H the handle"""

    def __init__(s, W, f):
        s.W = W; s.f = f

    def cls(s, r, d=0):
        f = s.f
        if d > 20:
            return None
        r = casts(f, r)
        if isinstance(r, list):
            return "I" if r[0] == "a" and r[1] == 0 else None
        x = f.val(r)
        if x is None:
            return None
        if x.op in ("phi", "select"):
            cs = {s.cls(q, d + 1) for q in ([q for q, _ in x.d["in_"]] if x.op == "phi" else x.args[1:])} - {None}
            return cs.pop() if len(cs) == 1 else None
        if x.op == "load":
            b, o = ir.ptr_base(f, x.args[0])
            k = s.cls(b, d + 1)
            if k == "I":
                return "A" if o == s.W.ARG else "R" if o == s.W.RET else "H" if o == 0 else None
            if k == "A":
                return "AF"


class Callback:
    """what the arrival of an answer does: (counters lowered, decoded 1 / failed 2, output given back, handle destroyed, stored)"""

    def __init__(s, W, name, nonnull=True):
        s.W = W; s.name = name; f = s.f = W.P.fns[name]; s.bad = {}; s.out = set(); s.sets = False; s.n = 0
        V = Values(W, f)

        def note(k, x, t):
            s.bad.setdefault((k, x.loc()), t)
        roots = [ir.ptr_base(f, x.args[1])[0] for x in f.calls("HG_Get_output")]
        frees = any(True for _ in f.calls("HG_Free_output"))

        def tr(x, us, ev):
            w, g, fr, de, pend, st = us
            if x.op == "load":
                b, o = ir.ptr_base(f, x.args[0])
                k = V.cls(x.i)
                if k == "A":
                    return [(us, NZ if nonnull else OK)]
                if k == "R":
                    return [(us, s.status)]
                if b in roots and g != 1:
                    note("undecoded", x, "reads the answer without having decoded it" if g != 2 else "reads an answer that could not be decoded")
                return None
            if x.op == "store":
                b, o = ir.ptr_base(f, x.args[1])
                if V.cls(b) == "A" and o is not None:
                    return [((w, g, fr, de, pend, put(st, o, x.d.get("sz", 0), ev(x.args[0]))), None)]
                return None
            if x.op != "call" or not x.callee:
                return None
            c = x.callee
            if c in DECR or c == "hg_atomic_set32":
                n = W.counter(f, x.args[0])
                if n not in W.idx:
                    return None
                w = list(w); i = W.idx[n]
                if c == "hg_atomic_set32":
                    w[i] += 1; s.sets = True
                else:
                    w[i] = max(-3, min(3, w[i] - DECR[c]))
                return [((tuple(w), g, fr, de, pend, st), None)]
            if c == "HG_Get_output":
                s.n += 1
                return ([((w, 1, fr, de, pend, st), OK)] if s.status == OK else []) + [((w, 2, fr, de, pend, st), NZ)]
            if c == "HG_Free_output":
                if fr:
                    note("free2", x, "gives the answer back twice")
                elif g != 1 and W.pointers(f, ir.ptr_base(f, x.args[1])[0]):
                    note("freeun", x, "gives back an answer that was not decoded")
                if de:
                    note("freedead", x, "gives back the answer of a handle already destroyed")
                return [((w, g, min(fr + 1, 2), de, pend, st), OK)]
            if c == "HG_Destroy":
                k = V.cls(x.args[0])
                if k in ("H", "AF"):
                    if de:
                        note("dest2", x, "destroys its handle twice")
                    return [((w, g, fr, min(de + 1, 2), pend, st), OK)]
                return [(us, OK)]
            if c == "HG_Forward":
                p = (W.fnref(f, x.args[1]), V.cls(x.args[2]) == "A", "fw")
                return [((w, 1, fr, de, pend | {p}, st), OK), ((w, 2, fr, de, pend, st), NZ)]
            if c == "HG_Bulk_transfer":
                p = (W.fnref(f, x.args[1]), V.cls(x.args[2]) == "A", "bulk")
                y = f.val(casts(f, x.args[5]))
                if p[0] in W.P.fns and W.bulk(p[0]).origin and frees and y is not None and y.op == "load" and ir.ptr_base(f, y.args[0])[0] in roots:
                    note("bulk2", x, "gives the server's bulk handle back with the answer, and %s gives it back again" % p[0])
                return [((w, g, fr, de, pend | {p}, st), OK), (us, NZ)]
            if c in W.wait:
                r = []
                i = W.idx[W.wait[c]]
                for u in s.apply(us):
                    if u[0][i] != 0:
                        note("wait", x, "waits in %s while the count and what is awaited differ by %d" % (c, u[0][i]))
                    r.append((u, OK))
                return r
            if c.startswith("HG_"):
                return [(us, OK)]
            if c in ALLOC:
                return [(us, NZ)]
            return None

        def ret(x, us, ev):
            for u in s.apply(us):
                s.out.add((u[0], u[1], u[2], u[3], u[5]))
        for s.status in (OK, NZ):                       # the request was carried out, or was not
            ESP(f, [(W.zero, 0 if s.status == OK else 2, 0, 0, frozenset(), frozenset())], tr, ret, limit=80000).run()
        if not s.out:
            raise AnalysisBroken("%s never returns" % name)

    def apply(s, us):
        """what the callback started has ended"""
        W = s.W
        w, g, fr, de, pend, st = us
        r = [us[:4] + (frozenset(), st)]
        for bc, same, kind in sorted(pend, key=str):
            n = []
            if bc not in W.P.fns:
                raise AnalysisBroken("%s hands an answer to an unknown function" % s.name)
            for u in r:
                if kind == "fw":
                    for o in W.cbk(bc).out:
                        n.append((tuple(a + b for a, b in zip(u[0], o[0])), o[1], u[2], u[3], frozenset(), merge(u[5], o[4]) if same else u[5]))
                else:
                    for bw, bd, bst in W.bulk(bc).out:
                        n.append((tuple(a + b for a, b in zip(u[0], bw)), u[1], u[2], min(u[3] + bd, 2), frozenset(), merge(u[5], bst) if same else u[5]))
            r = n
        return list(set(r))


class Bulk:
    def __init__(s, W, name):
        f = W.P.fns[name]; s.out = set(); V = Values(W, f); s.origin = False
        for x in f.calls("HG_Bulk_free"):
            y = f.val(casts(f, x.args[0]))
            if y is not None and y.op == "load":
                b, o = ir.ptr_base(f, y.args[0])
                s.origin = s.origin or V.cls(b) == "I" and o == W.ORIGIN

        def tr(x, us, ev):
            w, de, st = us
            if x.op == "store":
                b, o = ir.ptr_base(f, x.args[1])
                if V.cls(b) == "A" and o is not None:
                    return [((w, de, put(st, o, x.d.get("sz", 0), ev(x.args[0]))), None)]
            if x.op != "call" or not x.callee:
                return None
            c = x.callee
            if c in DECR:
                n = W.counter(f, x.args[0])
                if n in W.idx:
                    w = list(w); w[W.idx[n]] -= DECR[c]
                    return [((tuple(w), de, st), None)]
            if c == "HG_Destroy" and V.cls(x.args[0]) == "AF":
                return [((w, min(de + 1, 2), st), OK)]
            if c.startswith("HG_"):
                return [(us, OK)]
            return None
        ESP(f, [(W.zero, 0, frozenset())], tr, lambda x, u, e: s.out.add(u), limit=60000).run()


def puts(st, r, must):
    for o, sz, v in must:
        st = frozenset({q for q in st if q[0] != r or q[1] >= o + sz or q[1] + q[2] <= o} | {(r, o, sz, v)})
    return st


class Caller:
    def __init__(s, W, f, nserv=2):
        s.W = W; s.f = f; s.bad = {}; s.rets = 0; s.waits = 0; s.asks = 0
        P = W.P

        def note(k, x, t):
            s.bad.setdefault((k, x.loc()), t)
        isalloc = lambda b: isinstance(b, int) and (f.ins[b].op == "alloca" or f.ins[b].op == "call" and f.ins[b].callee in ALLOC)

        def sole(r, d=0):
            """the single value a merge can give, besides NULL"""
            r = casts(f, r)
            x = f.val(r)
            if x is None or x.op not in ("phi", "select") or d > 5:
                return r
            qs = [q for q, _ in x.d["in_"]] if x.op == "phi" else x.args[1:]
            c = {str(q): q for q in (sole(q, d + 1) for q in qs) if not (isinstance(q, list) and q and q[0] in ("n", "z"))}
            return next(iter(c.values())) if len(c) == 1 else r

        def cell(a, ev, d=0):
            """(which object, offset) an address denotes"""
            idx = []
            off = 0
            for _ in range(40):
                y = f.val(a)
                if y is not None and y.op == "getelementptr":
                    v = y.d.get("v")
                    if v:
                        for q in v:
                            n = ev(q[0])
                            idx.append(n[1] if n and n[0] == "i" else "?")
                    off += y.d.get("o") or 0
                    a = y.d["b"]
                    continue
                break
            b = sole(a)
            y = f.val(b)
            if isalloc(b):
                k = b
            elif y is not None and y.op == "load" and d < 4:
                k = ("in",) + cell(y.args[0], ev, d + 1)
            else:
                k = str(b)
            return (("at", k) + tuple(idx) if idx else k), off
        s.cell = cell

        def handle(r, ev):
            q = f.val(sole(r))
            return cell(q.args[0], ev) if q is not None and q.op == "load" else None

        def outcomes(us):
            v, pend, hs, st, fl = us
            r = [(v, hs, st, fl)]
            for cbn, ar, nn, hr in pend:
                c = W.cbk(cbn, nn)
                if c.sets and len(pend) > 1:
                    s.bad.setdefault(("sets", f.where()), "%s sets the count though other answers are outstanding" % cbn)
                n = []
                O = {(o[0], o[1] == 1, o[3], o[4]) for o in c.out}
                for low, ok, de, sto in O:
                    for v_, hs_, st_, fl_ in r:
                        n.append((tuple("m" if a == "m" else a - b for a, b in zip(v_, low)), add(hs_, hr, -de),
                                  puts(st_, ar, sto) if ar is not None else st_, fl_ if ok else fl_ | {"undec"}))
                r = list(set(n))
                if len(r) > 4000:
                    raise AnalysisBroken("%s: too many outcomes" % f.name)
            return r

        def add(hs, hr, d):
            if hr is None or d == 0:
                return hs
            m = dict(hs); m[hr] = max(-1, min(3, m.get(hr, 0) + d))
            return frozenset(m.items())
        # objects handed to callbacks; cells of handles
        args = set()
        for x in f.calls(*ASK):
            b, _ = ir.ptr_base(f, x.args[2])
            args.add(str(sole(b)))
        asks = any(True for _ in f.calls(*ASK))
        cells = [ir.ptr_base(f, x.args[3])[0] for x in f.calls("HG_Create")]

        def target(b, ev):
            """the object an argument of a callback is, or None"""
            b = sole(b)
            y = f.val(b)
            if isalloc(b):
                return b
            if y is not None and y.op == "load":
                return ("in",) + cell(y.args[0], ev)
            return None

        def tr(x, us, ev):
            v, pend, hs, st, fl = us
            if x.op == "load":
                b, o = ir.ptr_base(f, x.args[0])
                if isinstance(b, list) and b[0] == "g" and b[1].startswith("pdc_server_num_g"):
                    return [(us, ("i", nserv))]
                h = cell(x.args[0], ev)
                m = dict(hs)
                if h in m:
                    return [(us, NZ if m[h] > 0 else OK if m[h] == 0 and h in nulls(fl) else None)]
                t = target(b, ev)
                if t is not None and o is not None:
                    sz = x.d.get("sz", 0)
                    for r, qo, qs, qv in st:
                        if r == t and qo == o and qs == sz and qv is not None:
                            return [(us, ("i", qv))]
                    if known(fl, t) and not any(r == t and qo <= o and o + sz <= qo + qs for r, qo, qs, qv in st):
                        note("uninit", x, "uses a result nothing has stored" + (" when the answer could not be decoded" if "undec" in fl else ""))
                return None
            if x.op == "store":
                b, o = ir.ptr_base(f, x.args[1])
                h = cell(x.args[1], ev)
                if any(str(b) == str(k) for k in cells) and ev(x.args[0]) == OK and dict(hs).get(h, 0) == 0:
                    return [((v, pend, add0(hs, h), st, fl | {("null", h)}), None)]
                t = target(b, ev)
                if t is not None and o is not None and (known(fl, t) or any(q[0] == t for q in st)):
                    val = ev(x.args[0])
                    return [((v, pend, hs, puts(st, t, [(o, x.d.get("sz", 0), val[1] if val and val[0] == "i" else None)]), fl), None)]
                return None
            if x.op != "call" or not x.callee:
                return None
            c = x.callee
            if c.startswith(("memset", "llvm.memset")):
                t = target(ir.ptr_base(f, x.args[0])[0], ev)
                if t is not None and known(fl, t):
                    return [((v, pend, hs, puts(st, t, [(0, 100000, None)]), fl), None)]
                return None
            if c in DECR or c == "hg_atomic_set32":
                n = W.counter(f, x.args[0])
                if n not in W.idx:
                    return None
                i = W.idx[n]; v = list(v)
                if c == "hg_atomic_set32":
                    q = ev(x.args[1]); v[i] = q[1] if q and q[0] == "i" else "m"
                elif v[i] != "m":
                    v[i] = max(-4, min(4, v[i] + DECR[c]))
                return [((tuple(v), pend, hs, st, fl), None)]
            if c == "HG_Create":
                h = cell(x.args[3], ev)
                return [((v, pend, add(hs, h, 1), st, fl - {("null", h)}), OK)]
            if c == "HG_Destroy":
                h = handle(x.args[0], ev)
                if h is None:
                    return [((v, pend, hs, st, fl | {"unk"}), OK)]
                m = dict(hs)
                if h not in m and f.val(sole(x.args[0])) is not None and not owncell(h):
                    return [(us, OK)]
                if m.get(h, -1) < 0:
                    note("destroy", x, "destroys a handle it does not have")
                if m.get(h, 0) <= 0:
                    return [(us, OK)]
                return [((v, pend, add(hs, h, -1), st, fl), OK)]
            if c in ASK:
                s.asks += 1
                cbn = W.fnref(f, x.args[1])
                if cbn not in P.fns:
                    raise AnalysisBroken("%s: answer handed to an unknown function" % x.loc())
                t = target(ir.ptr_base(f, x.args[2])[0], ev)
                h = handle(x.args[0], ev) if c == "HG_Forward" else None
                p = tuple(sorted(pend + ((cbn, t, ev(x.args[2]) != OK, h),), key=str))
                if len(p) > 5:
                    p = p[:5]
                return [((v, p, hs, st, (fl | {"asked"}) - {"told"}), OK), ((v, pend, hs, st, fl | {"fwd"}), NZ)]
            if c in W.wait:
                i = W.idx[W.wait[c]]; s.waits += 1
                if not pend:
                    # what a server tells unasked comes once
                    if v[i] not in (0, 1) or v[i] == 1 and ("told" in fl or "asked" not in fl and asks):
                        note("count", x, "waits for %s answers though it has asked for none" % (v[i],))
                    if v[i] == 1:
                        fl = fl | {"told"}
                    v = list(v); v[i] = 0
                    return [((tuple(v), (), hs, st, fl), OK)]
                r = []
                for v2, hs2, st2, fl2 in outcomes(us):
                    if v2[i] == "m":
                        note("count", x, "waits for a number of answers that is not the number asked for (%d)" % len(pend))
                    elif v2[i] > 0:
                        note("count", x, "waits for %d more than the %d answers it asked for" % (v2[i], len(pend)))
                    elif v2[i] < 0:
                        note("count", x, "stops waiting while %d answers of %d are outstanding" % (-v2[i], len(pend)))
                    for j in range(len(v2)):
                        if j != i and v2[j] != 0:
                            note("other", x, "leaves another count off by %s" % (v2[j],))
                    r.append(((W.zero, (), hs2, st2, fl2), OK))
                return r
            if W.waits(c):
                if pend:
                    note("nested", x, "calls %s, which waits, while answers are outstanding" % c)
                return None
            if c.startswith("HG_"):
                return [(us, OK)]
            if c in ALLOC:
                if str(x.i) in args:
                    st2 = frozenset(q for q in st if q[0] != x.i)
                    if "calloc" in c:
                        st2 = puts(st2, x.i, [(o, n, 0) for o, n in zeros(x.i)] or [(0, 100000, None)])
                        for h in {(x.i, ir.ptr_base(f, y.args[3])[1]) for y in f.calls("HG_Create") if sole(ir.ptr_base(f, y.args[3])[0]) == x.i}:
                            hs = add0(hs, h); fl = fl | {("null", h)}
                    return [((v, pend, hs, st2, fl | {("known", x.i)}), NZ)]
                return [(us, NZ)]
            return None

        def owncell(h):
            b = h[0]
            while isinstance(b, tuple) and b[0] in ("at", "in"):
                b = b[1]
            return isalloc(b) or any(str(b) == str(k) for k in cells)

        def add0(hs, h):
            m = dict(hs); m[h] = 0
            return frozenset(m.items())

        def known(fl, t):
            return ("known", t) in fl

        def nulls(fl):
            return {q[1] for q in fl if isinstance(q, tuple) and q[0] == "null"}

        def zeros(b):
            """the fields of an allocation the function or its callbacks use"""
            r = set()
            for y in f.instrs():
                if y.op == "load" or y.op == "store" or y.op == "call" and y.callee == "HG_Create":
                    bb, o = ir.ptr_base(f, y.args[0] if y.op == "load" else y.args[1] if y.op == "store" else y.args[3])
                    if sole(bb) == b and o is not None:
                        r.add((o, y.d.get("sz", 8) if y.op != "call" else 8))
            return r

        def ret(x, us, ev):
            v, pend, hs, st, fl = us
            rv = ev(x.args[0]) if x.args else None
            s.rets += 1
            if pend:
                note("return", x, "returns with %d answers outstanding" % len(pend))
            elif v != W.zero:
                note("left", x, "returns with the count at %s" % (v,))
            if not pend and any(n > 0 for k, n in hs) and not fl & {"unk", "fwd"}:
                note("leak", x, "does not give back a handle it created" + (" when the answer could not be decoded" if "undec" in fl else ""))
            if "undec" in fl and rv == OK and f.ret != "void":
                note("success", x, "reports success though an answer could not be decoded")
            if "fwd" in fl and rv == OK and f.ret != "void":
                note("successf", x, "reports success though a request could not be sent")
        s.e = ESP(f, [(W.zero, (), frozenset(), frozenset(), frozenset(("known", y.i) for y in f.instrs() if y.op == "alloca" and str(y.i) in args))], tr, ret, limit=400000)
        s.e.run()


def waitloop(W, f, chk):
    """left only when the count is down or progress is impossible; every event is handed on before the count is looked at again"""
    g = W.wait[f.name]; bad = set()

    def tr(x, us, ev):
        st, trig = us
        if x.op != "call" or not x.callee:
            return None
        c = x.callee
        if c == "hg_atomic_get32" and W.counter(f, x.args[0]) == g:
            return [(("more", trig), ("i", 1)), (("done", trig), OK), (("done", trig), ("i", -1))]
        if c == "HG_Trigger":
            return [((st, 1), OK), ((st, 1), ("i", W.TIMEOUT)), (("fail", 1), ("ne", frozenset([0, W.TIMEOUT])))]
        if c == "HG_Progress":
            if st == "done":
                bad.add((x.loc(), "waits for more though every answer has arrived"))
            if not trig:
                bad.add((x.loc(), "waits again without having handled what has arrived"))
            return [(("none", 0), OK), (("none", 0), ("i", W.TIMEOUT)), (("fail", 0), ("ne", frozenset([0, W.TIMEOUT])))]
        return None

    def ret(x, us, ev):
        if us[0] not in ("done", "fail"):
            bad.add((x.loc(), "returns while answers are outstanding"))
    ESP(f, [(("none", 0))], tr, ret, limit=20000).run()
    for l, t in sorted(bad):
        chk.oblige(False, "%s:%s" % (f.name, t), "%s: %s %s" % (l, f.name, t))
    if not bad:
        chk.oblige(True, f.name, "", sample="%s is left only when %s is down to 0 or progress fails" % (f.where(), g))


def run():
    chk = Check(PID, "a function that asks servers and waits: the count it waits on equals the answers outstanding, on every path; the callbacks "
                "lower it once per answer, use only decoded answers, destroy a handle once; no answer undecoded is reported as success")
    P = ir.program("client")
    W = World(P)
    chk.count("wait loops", len(W.wait))
    for n in sorted(W.wait):
        waitloop(W, P.fns[n], chk)
    cbs = set()
    for f in P.fns.values():
        for x in f.calls(*ASK):
            n = W.fnref(f, x.args[1])
            if n:
                cbs.add(n)
    nc = na = nw = 0
    cks = ("count", "other", "left", "return", "nested", "leak", "destroy", "uninit", "success", "successf", "sets")
    for f in sorted(P.fns.values(), key=lambda f: f.name):
        if f.name in W.wait or f.name in cbs:
            continue
        if not any(True for _ in f.calls(*ASK, *W.wait)):
            continue
        c = Caller(W, f)
        nc += 1; na += sum(1 for _ in f.calls(*ASK)); nw += sum(1 for _ in f.calls(*W.wait))
        for (k, l), t in sorted(c.bad.items()):
            chk.oblige(False, "%s:%s" % (f.name, k), "%s: %s %s" % (l, f.name, t))
        if not c.bad:
            chk.oblige(True, f.name, "", sample="%s: %d requests sent, %d waits, %d ways to return" % (f.where(), c.asks, c.waits, c.rets))
    chk.count("functions that ask or wait", nc); chk.count("requests sent", na); chk.count("waits", nw)
    k = 0
    for key, c in sorted(W.memo.items(), key=str):
        if key[0] != "c":
            continue
        k += 1
        lows = {o[0] for o in c.out}
        if len(lows) != 1 or sum(next(iter(lows))) != 1:
            chk.oblige(False, "%s:lowers" % c.name, "%s: %s does not lower exactly one count by one on every path: %s" % (c.f.where(), c.name, sorted(lows)))
        for (q, l), t in sorted(c.bad.items()):
            chk.oblige(False, "%s:%s" % (c.name, q), "%s: %s %s" % (l, c.name, t))
        if not c.bad:
            chk.oblige(True, c.name, "", sample="%s: lowers one count once, %d outcomes" % (c.f.where(), len(c.out)))
    chk.count("callbacks", k)
    chk.floor("wait loops", 2); chk.floor("functions that ask or wait", 45); chk.floor("requests sent", 50); chk.floor("callbacks", 38)
    return chk.finish("typestate over the client's waiting loops, answer callbacks and calling functions, on all paths, two servers")
