"""I01: identifiers.  Every registered object has its own identifier, which finds exactly that object until its last
reference is dropped, and is never given out again; unknown identifiers are refused."""
import ir
from report import Check
from absint import Interp, Path, reg
from esp import ESP
from sym import Poly
from copies import Layout
from frontend import AnalysisBroken

PID = "I01"
c = Poly.c
ID_BITS = 55
GLOB = "pdc_id_list_g"
TYPE = 5            # any library type: the operations only use it as an index
OTHER = 6


def seq(k):
    return Poly.a(("seq", k))


N = Poly.a(("next",))
OBJ = lambda k: Poly.a(("obj", k))


def mkid(t, s):
    return c(t << ID_BITS) + s


class Reg(Interp):
    """identifiers are type << 55 | sequence number; sequence numbers are opaque, distinct, below the next one"""

    def arith(self, op, a, b, x):
        small = lambda p: len(p.t) == 1 and list(p.t.values()) == [1] and list(p.t)[0] and \
            list(p.t)[0][0][0] in ("seq", "next") and len(list(p.t)[0]) == 1
        k0 = a.t.get((), 0)
        rest = a - c(k0)
        cb = b.const()
        if cb is not None and (small(rest) or not rest.t):
            lo = (1 << ID_BITS) - 1
            if op == "lshr" and cb == ID_BITS and not k0 & lo:
                return c(k0 >> ID_BITS)
            if op == "and" and small(rest):
                if cb & lo == lo and not k0 & lo:
                    return rest + c(k0 & cb)
        if op == "or":
            for p, q in ((a, b), (b, a)):
                kc = p.const()
                if kc is not None and not kc & ((1 << ID_BITS) - 1) and small(q):
                    return p + q
        if op == "shl" and a.const() is not None and cb is not None:
            return c((a.const() << cb) & ((1 << 64) - 1))
        return super().arith(op, a, b, x)


def oracle(path, core, a, b):
    d = a - b
    ats = d.atoms()
    if ats and all(x[0] in ("seq", "next") for x in ats):
        vals = sorted(v for k, v in d.t.items() if k)
        k0 = d.t.get((), 0)
        if len(ats) == 2 and vals == [-1, 1] and k0 == 0 and core in ("eq", "ne"):
            return core == "ne"           # two different sequence numbers
        nx = d.t.get((("next",),), 0)
        if core in ("eq", "ne") and len(ats) == 1 and nx == 0 and k0 != 0 and k0 % (1 << ID_BITS) == 0:
            return core == "ne"
        if len(ats) == 2 and vals == [-1, 1] and k0 % (1 << ID_BITS) == 0 and core in ("eq", "ne"):
            return core == "ne"
        if len(ats) == 1 and vals == [1] and k0 == 0 and core in ("eq", "ne") and nx == 0:
            return None
        if len(ats) == 1 and vals == [1] and k0 == -((1 << ID_BITS) - 1):
            return {"le": True, "gt": False}.get(core)     # sequence numbers fit (asserted by the code)
        if len(ats) == 1 and vals == [1] and k0 == -(1 << ID_BITS):
            return {"lt": True, "ge": False}.get(core)
    return None


class World:
    def __init__(self, P, L):
        self.P = P; self.L = L
        self.eo = {f: L.off("_pdc_id_info", f) for f in ("id", "count", "obj_ptr", "entry")}
        self.to = {f: L.off("PDC_id_type", f) for f in ("free_func", "type_id", "init_count", "id_count", "nextid", "ids")}

    def path(self, n, counts=None, init=1, free=True, types=(TYPE,)):
        """a registry with n objects of type TYPE, most recent first"""
        p = Path()
        p.mem[(("reg", ("glob", GLOB)), 0)] = reg("LIST")
        for t in range(0, 256):
            p.mem[(("reg", "LIST"), 8 * t)] = reg(("TYPE", t)) if t in types else c(0)
        for t in types:
            T = ("reg", ("TYPE", t))
            m = n if t == TYPE else 0
            p.mem[(T, self.to["free_func"])] = reg(("FREE", t)) if free else c(0)
            p.mem[(T, self.to["type_id"])] = c(t)
            p.mem[(T, self.to["init_count"])] = c(init)
            p.mem[(T, self.to["id_count"])] = c(m)
            p.mem[(T, self.to["nextid"])] = N
            p.mem[(T, self.to["ids"])] = reg(("E", 0)) if m else c(0)
        head = reg(("TYPE", TYPE)) + c(self.to["ids"])
        for k in range(n):
            E = ("reg", ("E", k))
            p.mem[(E, self.eo["id"])] = mkid(TYPE, seq(k))
            p.mem[(E, self.eo["count"])] = counts[k] if counts else Poly.a(("count", k))
            p.mem[(E, self.eo["obj_ptr"])] = OBJ(k)
            p.mem[(E, self.eo["entry"])] = reg(("E", k + 1)) if k + 1 < n else c(0)
            p.mem[(E, self.eo["entry"] + 8)] = reg(("E", k - 1)) + c(self.eo["entry"]) if k else head
        return p

    def ext(self, fails=False):
        def e(f, args, path, x):
            if f is None or f.startswith("?"):
                r, off = Interp.split(self.I.fpv) if self.I.fpv is not None else (None, None)
                if r is not None and isinstance(r[1], tuple) and r[1][0] == "FREE":
                    path.ev("freefn", r[1][1], args[0])
                    ok = path.copy() if fails else path
                    if not fails:
                        return c(0)
                    bad = path
                    bad.ev("freefail", args[0])
                    return [(c(0), ok), (c(-1), bad)]
                raise AnalysisBroken("call through an unknown function pointer")
            if f in ("hg_atomic_init32", "hg_atomic_set32"):
                self.I.store(args[0], args[1], path); return c(0)
            if f in ("hg_atomic_incr32", "hg_atomic_decr32"):
                v = self.I.load(args[0], path) + c(1 if f.endswith("incr32") else -1)
                self.I.store(args[0], v, path); return v
            if f == "hg_atomic_get32":
                return self.I.load(args[0], path)
            if f and f.startswith("hg_thread_mutex_"):
                path.ev(f[16:], args[0]); return c(0)
            if f in ("malloc", "calloc", "PDC_malloc", "PDC_calloc") and self.oom:
                q = path.copy(); q.ev("oom")
                return [(c(0), q)] + self.alloc(f, args, path)
            if f in ("malloc", "calloc", "PDC_malloc", "PDC_calloc"):
                return self.alloc(f, args, path)
            if f == "strcmp":
                k = ("strcmp", args[0].key(), args[1].key())
                for e_ in path.events:
                    if e_[0] == "cmp" and e_[1] == k:
                        return c(e_[2])
                q = path.copy()
                path.ev("cmp", k, 0, args[0], args[1]); q.ev("cmp", k, 1, args[0], args[1])
                return [(c(0), path), (c(1), q)]
            return None
        return e

    oom = False

    def alloc(self, f, args, path):
        path.nreg += 1
        sz = args[0] * args[1] if f.endswith("calloc") else args[-1]
        p = reg(("new", path.nreg))
        path.ev("alloc", p, sz, f.endswith("calloc"))
        if f.endswith("calloc"):
            for o in range(0, min(sz.const() or 0, 256), 4):
                path.mem[(("reg", ("new", path.nreg)), o)] = c(0)
        return [(p, path)]

    def run(self, name, args, p, fails=False, cell=None, oom=False):
        self.oom = oom
        self.I = Reg(self.P, oracle=oracle, ext=self.ext(fails), cell=cell, no_summary=True)
        return self.I.run(self.P.fn(name), args, p)

    def objects(self, q, t=TYPE):
        """the well-formed list of a type: [(entry region, id, count, object)] or a description of what is wrong"""
        T = ("reg", ("TYPE", t))
        prev = reg(T[1]) + c(self.to["ids"])
        cur = q.mem.get((T, self.to["ids"]))
        out = []
        while True:
            if cur is None:
                return "the list is not determined"
            if cur.const() == 0:
                return out
            r, off = Interp.split(cur)
            if r is None or off.const() != 0 or len(out) > 8:
                return "the list of registered ids is damaged"
            if r in q.freed:
                return "a freed entry is still listed"
            g = lambda f, o=0: q.mem.get((r, self.eo[f] + o))
            if g("entry", 8) != prev:
                return "an entry's back link is wrong"
            out.append((r[1], g("id"), g("count"), g("obj_ptr")))
            prev = cur + c(self.eo["entry"])
            cur = g("entry")

    def count(self, q, t=TYPE):
        return q.mem.get((("reg", ("TYPE", t)), self.to["id_count"]))

    def next(self, q, t=TYPE):
        return q.mem.get((("reg", ("TYPE", t)), self.to["nextid"]))


def heapok(q):
    for e in q.events:
        if e[0] in ("uaf", "badfree"):
            return "%s of a freed entry" % ("use" if e[0] == "uaf" else "second release")
    return None


def ent(k, cnt):
    return (("E", k), mkid(TYPE, seq(k)), cnt, OBJ(k))


CNT = lambda k: Poly.a(("count", k))


def registry(chk, W):
    P = W.P

    def judge(key, fn, what, bad):
        chk.oblige(not bad, "%s:%s" % (fn, key), "%s (%s, %s): %s" % (P.fn(fn).where(), fn, what, bad), "%s, %s" % (fn, what))
    MAX = 3
    # --- find
    fn = "PDC_find_id"
    with chk.part(fn):
        for n in range(MAX + 1):
            for k in list(range(n)) + [n + 7]:
                what = "%d objects, id of %s" % (n, "number %d" % k if k < n else "none of them")
                bad = None
                for rv, q in W.run(fn, [mkid(TYPE, seq(k))], W.path(n)):
                    chk.count("paths")
                    want = reg(("E", k)) if k < n else c(0)
                    if rv != want:
                        bad = bad or "the result is not %s" % ("the object's entry" if k < n else "NULL")
                    if W.objects(q) != [ent(i, CNT(i)) for i in range(n)] or W.next(q) != N:
                        bad = bad or "looking up an id changes the registry"
                judge("%d:%d" % (n, k), fn, what, bad)
        for what, idp, p in (("a type never initialised", mkid(OTHER, seq(0)), W.path(1)),
                             ("a type number out of range", mkid(200, seq(0)), W.path(1)),
                             ("a type no longer in use", mkid(TYPE, seq(0)), W.path(1, init=0)),
                             ("zero", c(0), W.path(1))):
            bad = None
            for rv, q in W.run(fn, [idp], p):
                if rv != c(0):
                    bad = "an id that is not registered is found"
            judge("bad:" + what, fn, what, bad)
    # --- register
    fn = "PDC_id_register"
    with chk.part(fn):
        for n in range(MAX + 1):
            bad = None
            for rv, q in W.run(fn, [c(TYPE), OBJ(99)], W.path(n), oom=True):
                chk.count("paths")
                o = W.objects(q)
                old = [ent(i, CNT(i)) for i in range(n)]
                if any(e[0] == "oom" for e in q.events):
                    if rv != c(0) or o != old or W.count(q) != c(n):
                        bad = bad or "a registration that fails changes the registry"
                    continue
                if isinstance(o, str):
                    bad = bad or o; continue
                new = [e for e in o if e[0] not in [x[0] for x in old]]
                if len(new) != 1 or [e for e in o if e not in new] != old:
                    bad = bad or "the other objects are not all still registered"
                    continue
                d = (W.next(q) - N).const()
                want = rv - c(TYPE << ID_BITS)
                ok = want == N or ((want - N).const() is not None and 0 <= (want - N).const() < (d or 0))
                if new[0][1] != rv or not ok or d is None or d < 1:
                    bad = bad or "the new id is not a fresh sequence number of the type"
                if new[0][2] != c(1) or new[0][3] != OBJ(99):
                    bad = bad or "the new entry is not the object with one reference"
                if W.count(q) != c(n + 1):
                    bad = bad or "the number of ids is wrong"
                bad = bad or heapok(q)
            judge(str(n), fn, "%d objects before" % n, bad)
        for what, t, p in (("a type never initialised", OTHER, W.path(1)), ("a type no longer in use", TYPE, W.path(1, init=0)),
                           ("a type number out of range", 300, W.path(1)), ("an invalid type number", -1, W.path(1))):
            bad = None
            for rv, q in W.run(fn, [c(t), OBJ(99)], p):
                if rv != c(0) or W.objects(q) != [ent(0, CNT(0))]:
                    bad = "an object of %s is registered" % what
            judge("bad:" + what, fn, what, bad)
    # --- references
    for fn, dv in (("PDC_inc_ref", 1), ("PDC_dec_ref", -1)):
        with chk.part(fn):
            for n in range(MAX + 1):
                for k in list(range(n)) + [n + 7]:
                    for cv in (1, 2, 5):
                        for free in (True, False):
                            if k >= n and (cv != 1 or not free) or dv == 1 and not free:
                                continue
                            cs = [c(cv) if i == k else CNT(i) for i in range(n)]
                            what = "%d objects, id of %s, %d references" % (n, "number %d" % k if k < n else "none", cv)
                            bad = None
                            for rv, q in W.run(fn, [mkid(TYPE, seq(k))], W.path(n, cs, free=free), fails=True):
                                chk.count("paths")
                                o = W.objects(q)
                                calls = [e for e in q.events if e[0] == "freefn"]
                                failed = any(e[0] == "freefail" for e in q.events)
                                gone = k < n and dv < 0 and cv == 1 and not failed
                                exp = [ent(i, c(cv + dv) if i == k else CNT(i)) for i in range(n) if not (gone and i == k)]
                                if failed and not isinstance(o, str):      # what remains of the count is open
                                    exp = [e if e[0] != ("E", k) else e[:2] + (o[i][2] if i < len(o) else None,) + e[3:]
                                           for i, e in enumerate(exp)]
                                if isinstance(o, str):
                                    bad = bad or o; continue
                                if o != exp:
                                    bad = bad or "the registry afterwards is not the expected one"
                                if W.count(q) != c(len(exp)) or W.next(q) != N:
                                    bad = bad or "the number of ids or the next sequence number is wrong"
                                want = 1 if (k < n and dv < 0 and cv == 1 and free) else 0
                                if len(calls) != want or any(e[1] != TYPE or e[2] != OBJ(k) for e in calls):
                                    bad = bad or "the object is released %d times, expected %d" % (len(calls), want)
                                fr = [e[1] for e in q.events if e[0] == "freed"]
                                if (fr != [("reg", ("E", k))]) if gone else fr:
                                    bad = bad or "the wrong entry is given back"
                                bad = bad or heapok(q)
                                if k >= n:
                                    if dv < 0 and not (rv.const() is not None and rv.const() < 0):
                                        bad = bad or "dropping a reference of an unknown id succeeds"
                                    if dv > 0 and rv != c(0):
                                        bad = bad or "a reference to an unknown id is counted"
                                elif failed:
                                    if not (rv.const() is not None and rv.const() < 0):
                                        bad = bad or "an object that could not be released counts as released"
                                elif rv != c(cv + dv):
                                    bad = bad or "the number of references left is not returned"
                            judge("%d:%d:%d:%d" % (n, k, cv, free), fn, what, bad)
    # --- clear
    fn = "PDC_id_list_clear"
    with chk.part(fn):
        for n in range(MAX + 1):
            bad = None
            for rv, q in W.run(fn, [c(TYPE)], W.path(n), fails=True):
                chk.count("paths")
                o = W.objects(q)
                failed = [e[1] for e in q.events if e[0] == "freefail"]
                exp = [ent(i, CNT(i)) for i in range(n) if OBJ(i) in failed]
                if o != exp:
                    bad = bad or (o if isinstance(o, str) else "the ids left are not those whose objects could not be released")
                calls = [e[2] for e in q.events if e[0] == "freefn"]
                if sorted(map(repr, calls)) != sorted(repr(OBJ(i)) for i in range(n)):
                    bad = bad or "not every object is released exactly once"
                if W.count(q) != c(len(exp)):
                    bad = bad or "the number of ids is wrong"
                if (rv == c(0)) == bool(failed):
                    bad = bad or "the result does not tell whether all objects were released"
                bad = bad or heapok(q)
            judge(str(n), fn, "%d objects" % n, bad)
    fn = "PDC_id_list_null"
    with chk.part(fn):
        for n in range(MAX + 1):
            bad = None
            for rv, q in W.run(fn, [c(TYPE)], W.path(n)):
                if rv != c(n):
                    bad = "the number of registered ids is not returned"
            judge(str(n), fn, "%d objects" % n, bad)
    # --- by name
    fn = "PDC_find_byname"
    with chk.part(fn):
        oi = W.L.off("_pdc_cont_info", "cont_info_pub"); on = W.L.off("pdc_cont_info", "name")

        def cell(r, off):
            nm = r[1]
            if isinstance(nm, tuple) and nm[0] == "O" and off == oi:
                return reg(("OP", nm[1]))
            if isinstance(nm, tuple) and nm[0] == "OP" and off == on:
                return Poly.a(("name", nm[1]))
            return None
        for n in range(MAX + 1):
            bad = None
            p = W.path(n)
            for i in range(n):
                p.mem[(("reg", ("E", i)), W.eo["obj_ptr"])] = reg(("O", i))
            for rv, q in W.run(fn, [c(TYPE), Poly.a(("name", "wanted"))], p, cell=cell):
                chk.count("paths")
                eq = {}
                for e in q.events:
                    if e[0] == "cmp":
                        for a, b in ((e[3], e[4]), (e[4], e[3])):
                            if b == Poly.a(("name", "wanted")):
                                for i in range(n):
                                    if a == Poly.a(("name", i)):
                                        eq[i] = e[2] == 0
                hit = [i for i in range(n) if eq.get(i)]
                if hit:
                    if rv not in [mkid(TYPE, seq(i)) for i in hit]:
                        bad = bad or "the id of another container is returned"
                elif rv != c(0) or len(eq) != n:
                    bad = bad or "a container is not found, or one of another name is"
            judge(str(n), fn, "%d containers" % n, bad)
    # --- types
    fn = "PDC_register_type"
    with chk.part(fn):
        for what, p in (("first use", W.path(0, types=())), ("reuse", W.path(0, init=0)), ("again", W.path(2, init=3))):
            bad = None
            for rv, q in W.run(fn, [c(TYPE), reg(("FREE", 77))], p):
                chk.count("paths")
                tp = q.mem.get((("reg", "LIST"), 8 * TYPE))
                r, off = Interp.split(tp)
                if rv != c(0) or r is None:
                    bad = bad or "the type is not set up"; continue
                g = lambda f: q.mem.get((r, W.to[f]))
                if what == "again":
                    if W.objects(q) != [ent(i, CNT(i)) for i in range(2)] or W.next(q) != N or g("init_count") != c(4) or \
                            g("free_func") != reg(("FREE", TYPE)):
                        bad = bad or "initialising a type again disturbs its registered ids"
                else:
                    if g("ids") != c(0) or g("init_count") != c(1) or g("free_func") != reg(("FREE", 77)) or \
                            g("id_count") != c(0) or g("nextid") is None:
                        bad = bad or "a new type does not start empty with its release function"
            judge(what, fn, what, bad)


# ---- every use of a looked-up id
def root(fn, r):
    while isinstance(r, int) and fn.ins[r].op in ("getelementptr", "bitcast"):
        r = fn.ins[r].d["b"] if fn.ins[r].op == "getelementptr" else fn.ins[r].args[0]
    return r


def derived(fn, v):
    """the values that may be v itself, passed on"""
    out = {v}
    work = [v]
    while work:
        for u in fn.uses_of(work.pop()):
            if u.op in ("phi", "select", "bitcast", "freeze", "ptrtoint", "inttoptr") and u.i not in out:
                out.add(u.i); work.append(u.i)
    return out


def wrappers(C):
    """the functions that look an id up and return a pointer, NULL when it is not registered"""
    out = {"PDC_find_id"}
    while True:
        new = set()
        for fn in C.fns.values():
            if fn.name in out or not str(fn.ret).endswith("*"):
                continue
            calls = [x for x in fn.instrs() if x.op == "call" and x.callee in out]
            for call in calls:
                null = []

                def tr(x, u, ev, call=call):
                    if x is call:
                        return [("null", ("i", 0))]
                    return None

                def ar(x, u, ev):
                    if u == "null" and x.args and ev(x.args[0]) == ("i", 0):
                        null.append(x)
                ESP(fn, ["s"], tr, ar).run()
                if null:
                    new.add(fn.name)
                    break
        if not new:
            return out
        out |= new


def refused(chk, C):
    look = wrappers(C)
    chk.analysed["lookup functions"] = sorted(look)
    n = 0
    for fn in C.fns.values():
        for call in [x for x in fn.instrs() if x.op == "call" and x.callee in look]:
            bad = []
            carries = derived(fn, call.i)
            k = sum(1 for x in fn.instrs() if x.op == "call" and x.callee in look and
                    (x.b, x.pos) < (call.b, call.pos))

            def tr(x, u, ev, call=call):
                if x is call:
                    return [("ok", ("ne", frozenset([0])))] if u == "known" else \
                        [("null", ("i", 0)), ("ok", ("ne", frozenset([0])))]
                if u == "s" and x.op == "call" and x.callee in look and x.args[:1] == call.args[:1]:
                    return [("s", ("i", 0)), ("known", ("ne", frozenset([0])))]     # the same id was found before
                if u == "null":
                    ptr = x.args[0] if x.op == "load" else x.args[1] if x.op == "store" else None
                    if ptr is not None:
                        r = root(fn, ptr)
                        if isinstance(r, int) and r in carries and ev(r) == ("i", 0):
                            bad.append(x)
                            return []
                return None
            with chk.part(fn.name):
                ESP(fn, ["s"], tr, lambda *a: None, only=carries).run()
                if bad:                       # with all correlations
                    bad.clear()
                    ESP(fn, ["s"], tr, lambda *a: None).run()
                n += 1
                chk.oblige(not bad, "refused:%s:%d" % (fn.name, k), "%s:%s (%s): the result of %s at line %d is used "
                           "without checking that the id is known" % (fn.where().rsplit(":", 1)[0],
                           bad[0].line() if bad else 0, fn.name, call.callee, call.line()),
                           "%s, %s at line %d" % (fn.name, call.callee, call.line()))
    chk.count("lookups", n)


# ---- opening and closing
def ptype(fn, ref):
    """the struct type a value points to, from the program's own declarations"""
    ts = {t for r, v, t, *_ in fn.dbg if r == ref and isinstance(t, str) and t.startswith("struct ") and t.endswith("*")}
    return ts.pop() if len(ts) == 1 else None


def const(fn, ref):
    return ref[1] if isinstance(ref, list) and ref[0] in ("i", "c") else None


def handles(chk, C):
    free, kinds = {}, {v: k for k, v in C.enums.get("", {}).items()} if "" in C.enums else {}
    for fn in C.fns.values():
        for x in fn.calls("PDC_register_type"):
            t = const(fn, x.args[0]); g = x.args[1]
            name = g[1] if isinstance(g, list) else None
            if t is None or name not in C.fns:
                raise AnalysisBroken("%s registers a type that cannot be followed" % fn.name)
            free[t] = name
            chk.count("types")
    opens = 0
    for fn in C.fns.values():
        for x in fn.calls("PDC_id_register"):
            t = const(fn, x.args[0]); opens += 1
            if t is None:
                raise AnalysisBroken("%s registers an unknown type" % fn.name)
            chk.oblige(t in free, "typed:%s" % fn.name, "%s (%s): registers an object of a type that is never set up" %
                       (x.loc(), fn.name))
            if t not in free:
                continue
            if not C.fns[free[t]].args:
                continue             # releases nothing
            have = ptype(fn, x.args[1])
            want = C.fns[free[t]].args[0][1]
            if have is None or not str(want).startswith("struct "):
                raise AnalysisBroken("%s: the type of the registered object is not known" % fn.name)
            chk.oblige(have == want, "typed:%s" % fn.name, "%s (%s): the object registered is a %s, but %s will release it "
                       "as a %s" % (x.loc(), fn.name, have, free[t], want), "%s registers a %s released by %s" %
                       (fn.name, have, free[t]))
        regs = fn.calls("PDC_id_register")
        if regs and fn.name != "PDC_id_register":
            bad = []

            def tr(x, u, ev):
                if x in regs:
                    return [(u, ("i", 0)), (u + 1, ("ne", frozenset([0])))]
                return None

            def ar(x, u, ev):
                v = ev(x.args[0]) if x.args else None
                if v == ("i", 0) and u:
                    bad.append((x, "an object stays registered although no id is given to the caller"))
            ESP(fn, [0], tr, ar).run()
            rt = str(fn.ret)
            if not rt.startswith("enum") and rt not in ("i32", "void"):
                chk.oblige(not bad, "given:%s" % fn.name, "%s (%s): %s" % (bad[0][0].loc() if bad else "", fn.name,
                           bad[0][1] if bad else ""), "%s gives every registered id to its caller" % fn.name)
    closes = 0
    for fn in C.fns.values():
        drops = fn.calls("PDC_dec_ref")
        if not drops or fn.name == "PDC_dec_ref" or not fn.name.endswith("close"):
            continue
        closes += 1
        bad = []
        for x in drops:
            if x.args[0] != ["a", 0]:
                bad.append("%s: drops a reference of another id than the one given" % x.loc())

        def tr(x, u, ev):
            if x in drops:
                if u >= 1:
                    bad.append("%s: drops a second reference" % x.loc())
                    return []
                return [(u + 1, None)]
            if x.op == "call" and x.callee == "PDC_find_id" and x.args[0] == ["a", 0] and u == 0:
                return [(1, ("i", 0)), (0, ("ne", frozenset([0])))]      # nothing to close
            return None

        def ar(x, u, ev):
            if ev(x.args[0]) == ("i", 0) and u == 0:
                bad.append("%s: succeeds without dropping the reference" % x.loc())
        ESP(fn, [0], tr, ar).run()
        chk.oblige(not bad, "close:%s" % fn.name, "%s (%s)" % (bad[0] if bad else "", fn.name),
                   "%s drops one reference" % fn.name)
    # a mapping keeps its object and region alive until it is removed
    for name, how, ids in (("PDCbuf_obj_map", "PDC_inc_ref", (3, 4)), ("PDCbuf_obj_unmap", "PDC_dec_ref", (0, 1))):
        fn = C.fn(name)
        rpc = [x for x in fn.instrs() if x.op == "call" and x.callee in ("PDC_Client_buf_map", "PDC_Client_buf_unmap")]
        if len(rpc) != 1:
            raise AnalysisBroken("%s: no single request to the server" % name)
        bad = []

        def tr(x, u, ev):
            if x is rpc[0]:
                return [(u, ("i", 0)), (u, ("ne", frozenset([0])))]
            if x.op == "call" and x.callee in ("PDC_inc_ref", "PDC_dec_ref"):
                k = [i for i in ids if x.args[0] == ["a", i]]
                if x.callee != how or not k:
                    bad.append("%s: changes the reference count of another id" % x.loc())
                    return []
                return [(tuple(sorted(u + (k[0],))), None)]
            return None

        def ar(x, u, ev):
            v = ev(x.args[0])
            if v == ("i", 0) and u != ids:
                bad.append("%s: succeeds without %s one reference of the object and of the region" %
                           (x.loc(), "taking" if how == "PDC_inc_ref" else "dropping"))
            if v is not None and v != ("i", 0) and not (v[0] == "ne" and 0 not in v[1]) and u:
                bad.append("%s: fails but changes reference counts" % x.loc())
        ESP(fn, [()], tr, ar).run()
        chk.oblige(not bad, "map:%s" % name, "%s (%s)" % (bad[0] if bad else "", name), "%s balances references" % name)
    chk.count("creating functions", opens)
    chk.count("closing functions", closes)


def run():
    chk = Check(PID, "each registry operation, started from any list of up to 3 registered objects, leaves exactly the "
                "objects that should be registered, with fresh ids and exact reference counts; no looked-up id is used "
                "before it is known to exist")
    chk.assumptions += ["sequence numbers do not exceed 2^55 (the code asserts it)", "single-threaded semantics"]
    C = ir.program("client")
    chk.analysed = {"objects per type": [0, 1, 2, 3]}
    registry(chk, World(C, Layout(C)))
    with chk.part("lookups"):
        refused(chk, C)
    with chk.part("handles"):
        handles(chk, C)
    chk.floor("lookups", 50)
    chk.floor("types", 6)
    chk.floor("creating functions", 10)
    chk.floor("closing functions", 5)
    chk.floor("obligations", 100)
    return chk.finish("Every operation of the id registry was abstractly interpreted over all lists of 0-3 entries, each "
                      "position, reference count and outcome of the release function; every id lookup of the client was "
                      "followed on the not-found branch.")
